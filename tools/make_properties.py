"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


JT = "pybbn/graph/jointree.py"
DAG = "pybbn/graph/dag.py"
GR = "pybbn/graph/graph.py"
SAM = "pybbn/sampling/sampling.py"
GEN = "pybbn/generator/bbngenerator.py"
PPTC = ["pybbn/pptc/inferencecontroller.py", "pybbn/pptc/initializer.py", "pybbn/pptc/propagator.py",
        "pybbn/pptc/evidencecollector.py", "pybbn/pptc/evidencedistributor.py",
        "pybbn/pptc/potentialinitializer.py", "pybbn/graph/potential.py"]

prop("C01", "Posteriors stay exact through every history of evidence changes",
     "After any sequence of setting, replacing, toggling, softening and retracting evidence (observations, findings, "
     "virtual likelihoods, one node or a batch at a time) on the join tree of a discrete network - connected or not - "
     "the posterior of every variable equals the one obtained by summing the network's joint distribution weighted by "
     "exactly the evidence then in force, whatever order the messages are passed in. Observing the value a node is "
     "already observed to have, one node at a time, retracts that observation, and querying changes nothing. Evidence "
     "of probability zero leaves the posteriors undefined while it is in force, but no trace once it is retracted.",
     ["histories", "inputs", "schedules"],
     "every discrete network, every finite history of evidence operations and queries on one join tree, every order in "
     "which the cliques are visited",
     "The tests fix a handful of networks, set one or two pieces of evidence on a fresh join tree and compare with "
     "literals; they never walk long histories with retraction, impossible evidence or virtual evidence, nor a second "
     "message order.",
     [JT] + PPTC,
     [("evidence bookkeeping, change detection and toggling", f"{JT}: update_evidences, set_observation, unobserve, Evidence"),
      ("global re-initialisation followed by collect/distribute", "pybbn/pptc/inferencecontroller.py, propagator.py")],
     [("evidences", "likelihood of each value of each node", f"{JT}: JoinTree.evidences"),
      ("potentials", "clique and separator potentials", f"{JT}: JoinTree.potentials")],
     ["JoinTree.get_posteriors", "JoinTree.get_bbn_potential"])

prop("C02", "A failed or interrupted evidence update is all or nothing",
     "If an evidence operation on a join tree ends in an exception - invalid evidence anywhere in the batch, an "
     "interrupt, a timeout or an allocation failure at any instant, a listener that fails - then afterwards the join "
     "tree answers exactly as if the operation had either not been started or been completed. Every later operation, "
     "including retrying the failed one, behaves as on a join tree that never saw the fault.",
     ["crash_points", "fault_sequences", "histories"],
     "every history of evidence operations, and in each every instant at which an operation is cut short and every kind "
     "of fault that cuts it short",
     "No test makes an evidence operation fail; the instants at which it can be cut short number in the thousands.",
     [JT] + PPTC,
     [("roll back to the previous evidence and potentials", f"{JT}: update_evidences"),
      ("marks are reset and potentials rebuilt at the start of each propagation", "pybbn/pptc/propagator.py, initializer.py")],
     [("evidences/potentials", "must stay in step with each other", JT)],
     ["JoinTree.get_posteriors after the fault"])

prop("C03", "Join trees of one network never influence each other",
     "Any number of join trees made from the same network - by applying inference to it again, by re-applying with new "
     "tables, by deep copy or by restoring a saved tree - can be used side by side, by interleaved callers each working "
     "on its own tree, and each gives exactly the posteriors that its own tables and its own evidence dictate. Building, "
     "using or discarding one never changes the answers of another, nor does adding nodes to or removing nodes from the "
     "network afterwards.",
     ["schedules", "histories", "inputs"],
     "every interleaving of callers (to the single step) that each build and use their own join trees over one shared "
     "network",
     "Tests use one join tree per network and one thread; nodes are shared objects that carry per-tree state, so only "
     "interleavings show cross-talk.",
     [JT, "pybbn/graph/node.py"] + PPTC,
     [("per-tree cliques, potentials and evidence over shared network nodes", f"{JT}, pybbn/pptc/inferencecontroller.py"),
      ("parent clique looked up per tree", "pybbn/pptc/initializer.py: get_clique"),
      ("deep copy of a join tree", f"{JT}: JoinTree.__deepcopy__")],
     [("node.metadata, node.potential", "per-node scratch state shared by the trees", "pybbn/graph/node.py")],
     ["JoinTree.get_posteriors of every tree"])

prop("C04", "A valid join tree however the network was ordered, grown or interrupted",
     "For every network, in whatever order its nodes and edges were added, whatever the ids and whatever order "
     "neighbours are visited in, applying inference yields a join tree (a forest if the network is disconnected) whose "
     "cliques cover every variable together with its parents and none of which contains another, in which each separator "
     "is the intersection of the two cliques it joins and the cliques holding any one variable are connected, and which "
     "gives the exact prior. The same holds when inference is applied again after the network was extended or its tables "
     "changed, or after an earlier attempt was interrupted at any instant.",
     ["inputs", "schedules", "crash_points", "histories"],
     "every network and insertion order, every visiting order, every history of extensions and rebuilds, every instant "
     "at which a build is cut short",
     "Tests build a few connected networks once, in one order, and never rebuild or interrupt.",
     ["pybbn/pptc/moralizer.py", "pybbn/pptc/triangulator.py", "pybbn/pptc/transformer.py"] + PPTC + [JT, GR],
     [("moralise, triangulate, spanning tree over separators", "pybbn/pptc/moralizer.py, triangulator.py, transformer.py"),
      ("assignment of each family to a clique", "pybbn/pptc/initializer.py")],
     [("node.metadata", "parents and parent clique remembered from earlier builds", "pybbn/graph/node.py")],
     ["JoinTree.get_cliques/get_sep_sets/get_edges/get_neighbors", "JoinTree.get_posteriors"])

prop("C05", "A save that is reported done restores exactly; a failed one is reported",
     "When saving a network (JSON or CSV, directly or by the generator's save-to-file) or a join tree (dictionary "
     "written as JSON) returns normally, loading the file in a later process gives the same network: same variables, "
     "values, edges, table entries bit for bit and order of parents, hence the same posteriors. This holds however the "
     "operating system splits, interrupts or delays the reads and writes, and when a write, flush, close or read fails, "
     "the save or load raises instead of returning.",
     ["fault_sequences", "crash_points", "inputs", "histories"],
     "every network (any names and values the format can express), every sequence of short or interrupted reads and "
     "writes, disk-full, I/O and close errors, and overwrites of older files",
     "Tests round-trip one or two small networks through an ideal temp file and compare a few fields.",
     [DAG, GEN, JT],
     [("serialisation", f"{DAG}: to_csv, from_csv, to_dict, from_dict, to_json, from_json"),
      ("join tree serialisation", f"{JT}: to_dict, from_dict"),
      ("generate and save", f"{GEN}: generate_bbn_to_file")],
     [("the saved file", "durable state", "file system")],
     ["Bbn.from_json", "Bbn.from_csv", "InferenceController.apply_from_serde"])

prop("C06", "A file cut short is never taken for a complete network",
     "If the process dies or the disk fills while a network is being saved, or somebody loads the file while it is "
     "still being written, loading the incomplete file raises an error or gives exactly the network being saved or the "
     "one that was there before, but never a different network.",
     ["crash_points", "schedules", "fault_sequences"],
     "every point at which the write of a file can stop, every buffering, every moment at which a concurrent reader opens it",
     "No test loads an incomplete file; the cut can fall at any byte.",
     [DAG],
     [("the format is self-delimiting", f"{DAG}: to_json, from_json"), ("line format", f"{DAG}: to_csv, from_csv")],
     [("the saved file", "durable state", "file system")],
     ["Bbn.from_json", "Bbn.from_csv"])

prop("C07", "Every sample drawn is legal, whatever the random source returns",
     "For every sequence of uniform draws in [0, 1), sampling from a network returns exactly the number of samples asked "
     "for, each assigning to every variable one of its values, agreeing with all the evidence, and having positive "
     "probability under the network; parents precede their children whatever the ids. Sampling never alters the evidence "
     "it is given or the network, and uses a bounded number of draws per accepted sample when the evidence is likely.",
     ["inputs", "fault_sequences", "histories"],
     "every network (any ids, any parent order), every evidence of positive probability, every stream of draws including "
     "the extreme values of the interval",
     "Tests draw with one seed from small binary networks and compare counts.",
     [SAM],
     [("cumulative tables per parent instantiation", f"{SAM}: Table"), ("rejection", f"{SAM}: LogicSampler.get_samples"),
      ("topological order", f"{SAM}: LogicSampler")],
     [], ["LogicSampler.get_samples"])

prop("C08", "Samples follow the distribution that exact inference computes",
     "With a fair random source the samples returned for any network and any evidence of positive probability are "
     "distributed as the network's joint distribution conditioned on that evidence, the same distribution that the join "
     "tree computes - whatever the ids, the order in which parents were added, or where the evidence lies.",
     ["inputs", "histories"],
     "every network and evidence, over the randomness of the draws",
     "Tests compare a few marginals of two or three networks whose ids are already in topological order.",
     [SAM],
     [("forward sampling with rejection", SAM)],
     [], ["LogicSampler.get_samples", "JoinTree.get_posteriors"])

prop("C09", "Seeded sampling reproduces, whatever else draws random numbers",
     "The samples obtained for a network, evidence, count and seed are the same on every call and on every sampler built "
     "for that network, no matter what other samplers, threads or callers of the random library do before, during or "
     "between the draws. Asking for fewer samples with the same seed gives a prefix.",
     ["schedules", "histories"],
     "every interleaving of callers that sample or use the random library",
     "The tests run one sampler in one thread.",
     [SAM],
     [("random generator seeded per call", f"{SAM}: get_samples")],
     [("generator state", "must be private to a call", SAM)], ["LogicSampler.get_samples"])

prop("C10", "Every generated network is valid, whatever the random source returns",
     "For any size and limits and any sequence of random draws, generating a network finishes, and yields a connected "
     "acyclic graph over the requested nodes - for the singly connected kind one without undirected cycles - in which each "
     "variable has between two and the permitted number of values and each table has one normalised row of non-negative "
     "entries per combination of its parents' values. The generated network converts to one that inference accepts.",
     ["inputs", "fault_sequences"],
     "every number of nodes and every limit, every stream of draws including extreme and repeating ones",
     "Tests generate a few networks with one seed.",
     [GEN],
     [("edge edits undone when they break connectivity or acyclicity", GEN), ("Dirichlet rows", GEN)],
     [], ["generate_singly_bbn", "generate_multi_bbn", "convert_for_exact_inference"])

prop("C11", "Concurrent queries are safe and change nothing",
     "Any number of callers may query the same network, join tree, sampler, causal graph or saved dictionary at once "
     "(parents, children, edges, neighbours, paths, id and name maps, serialisation, restoring, posteriors, potentials, "
     "samples, adjustment sets): each gets the answer it would get alone, none fails, and afterwards the queried object "
     "and the question are unchanged. Asking about a node without edges, or about one "
     "that does not exist, is a query like any other.",
     ["schedules", "histories"],
     "every interleaving, to the single step, of any set of read-only calls",
     "Tests query from one thread.",
     [GR, DAG, JT, "pybbn/graph/pdag.py", SAM, "pybbn/causality/do.py"],
     [("look-ups that do not insert", f"{GR}, {DAG}"), ("potentials computed into fresh objects", "pybbn/graph/potential.py")],
     [("edge_map, neighbors", "adjacency", GR)], ["all query methods"])

prop("C12", "Causal effects equal intervention, whatever was asked before",
     "The average causal effect reported for X on a value of Y is, for each value x of X, the probability of that value "
     "of Y when X is set to x by intervention (its own table removed and all other tables kept), whenever every x is "
     "possible under every possible combination of X's parents. The answer does not depend on earlier queries, on a "
     "query that was interrupted at any instant, on interleaved use of other estimators of the same network, or on the "
     "dependence among X's parents.",
     ["histories", "schedules", "crash_points", "inputs"],
     "every network, every history of queries on one estimator, every interruption point, every interleaving of estimators "
     "over one network",
     "The tests ask two or three queries on fresh estimators where X has one parent or independent parents.",
     ["pybbn/causality/ace.py", JT],
     [("backdoor adjustment over the parents of X on one reused join tree", "pybbn/causality/ace.py")],
     [("Ace.jt", "join tree reused by all queries", "pybbn/causality/ace.py")], ["Ace.get_ace"])

prop("C13", "The answers do not depend on the process they are computed in",
     "Posteriors, saved files and exports, samples for a seed, generated networks for a seed, networks learned from data, "
     "join tree cliques, paths, adjustment sets (confounders, mediators) and causal effects are the same in every process, whatever hash randomisation that "
     "process drew.",
     ["configurations", "schedules"],
     "every hash seed, i.e. every iteration order of the hashed collections the code uses",
     "The test suite runs under one hash seed.",
     ["pybbn/causality/do.py", GR, JT, DAG, "pybbn/graph/factory.py", "pybbn/pptc/triangulator.py"],
     [("results taken in sorted or path order, not in set order", "pybbn/causality/do.py, pybbn/pptc/triangulator.py, transformer.py")],
     [], ["do.get_minimal_mediators", "do.get_all_confounders", "Bbn.to_dict", "JoinTree.get_cliques"])

prop("C14", "Building and editing graphs converges under repeats and interruptions",
     "However additions and removals of nodes and edges are ordered, repeated or interrupted and retried, an undirected, "
     "directed, partially directed or Bayesian graph ends up holding exactly the nodes added and the edges it accepted, "
     "each once, with parents, children, neighbours and edge list agreeing with one another; removing a node removes its "
     "edges. A directed acyclic graph or Bayesian network accepts a directed edge between two different nodes that are not "
     "joined yet exactly if it closes no directed cycle, a partially directed graph never accepts one that closes a "
     "directed cycle, and a Bayesian network lists the parents of each node in the order their edges were added.",
     ["histories", "crash_points"],
     "every history of edits, every instant at which an edit is cut short and then repeated",
     "Tests make a few edits in one order and never interrupt one.",
     [GR, DAG, "pybbn/graph/pdag.py", "pybbn/graph/edge.py"],
     [("guarded insertion", f"{GR}: add_edge, __shouldadd__"), ("path detection", f"{DAG}, pybbn/graph/pdag.py: PathDetector")],
     [("nodes, edges, edge_map, neighbors, parents", "redundant views of one graph", f"{GR}, {DAG}")],
     ["get_nodes, get_edges, get_parents, get_children, get_neighbors, edge_exists"])

prop("C15", "Re-applied and restored join trees equal freshly built ones",
     "At any point in the life of a join tree - with evidence set, after retractions, after other copies were made - "
     "re-applying it with new tables gives a tree without evidence that answers exactly as one built from scratch for the "
     "network with those tables, and serialising and restoring it, through any number of round trips and in another "
     "process, gives one that answers exactly as a fresh one for its network; both then follow evidence changes exactly. "
     "Neither alters the answers of the tree it was made from, not even when it is interrupted or the tables are invalid.",
     ["histories", "crash_points", "inputs"],
     "every network, every history before and after, every interruption point",
     "Tests re-apply once on one fresh tree and compare the posteriors with literals.",
     ["pybbn/pptc/inferencecontroller.py", "pybbn/pptc/potentialinitializer.py", JT],
     [("deep copy, new tables, re-initialise, propagate", "pybbn/pptc/inferencecontroller.py: reapply, apply_from_serde"),
      ("dictionary form of a join tree", f"{JT}: to_dict, from_dict")],
     [("parent_info, node tables", "what re-initialisation is made from", JT)],
     ["InferenceController.reapply", "InferenceController.apply_from_serde"])

prop("C16", "Gaussian beliefs depend on what was observed, not on how or when",
     "The mean vector and covariance of a Gaussian network after a set of observations are those of the conditional normal "
     "distribution, however the observations are ordered, split into batches or interleaved with other uses of the beliefs "
     "they started from. Conditioning never alters the belief it starts from, not even when it fails or is interrupted, "
     "so that callers can branch off one shared belief at the same time, and the record of what was observed belongs to "
     "each branch alone.",
     ["histories", "schedules", "crash_points"],
     "every order and batching of the observations, every interleaving of callers branching off shared beliefs, every "
     "interruption point",
     "Tests condition fresh models on one or two variables in header order.",
     ["pybbn/gaussian/inference.py"],
     [("a new belief per call", "pybbn/gaussian/inference.py: do_inferences")],
     [("M, E, H, meta", "belief state", "pybbn/gaussian/inference.py")], ["GaussianInference.do_inference(s)"])

prop("C17", "Copies of graphs and networks equal their originals and then live apart",
     "A deep copy of an undirected, directed, partially directed or Bayesian graph or of a join tree - or of one of its nodes, "
     "variables or edges - taken at any point of its life, also right after an edit was cut short, or by several callers at once, equals "
     "its original at that moment: same nodes, edges, parents in order, values, tables and metadata. From then on no edit of "
     "the structure, the tables, the values or the metadata of either, and no inference on either, shows in the other. "
     "Copying changes nothing, not even when it is interrupted.",
     ["histories", "crash_points", "schedules"],
     "every history of edits before and after, every interruption point of an edit or a copy, every family of copies of copies",
     "Tests copy a few fresh objects and change one attribute.",
     [GR, DAG, "pybbn/graph/jointree.py", "pybbn/graph/node.py", "pybbn/graph/edge.py", "pybbn/graph/variable.py"],
     [("memoised deep copy", f"{GR}, pybbn/graph/jointree.py, pybbn/graph/node.py, pybbn/graph/edge.py, pybbn/graph/variable.py: __deepcopy__, __copy__")],
     [("nodes, edges, edge_map, neighbors, parents, node tables and metadata", "state that must not be shared", f"{GR}, {DAG}")],
     ["copy.deepcopy of graphs, join trees, nodes, edges, variables"])

prop("C18", "Samples drawn from a Gaussian belief follow its summaries",
     "The per-variable summaries of a Gaussian belief agree with each other; they give each open variable the variance the "
     "belief's covariance has for it and each observed variable its value with variance 0. With a fair random source the "
     "samples drawn from the marginals are exactly as many as asked for, finite, drawn anew each time and follow the normal "
     "distributions so summarised (an observed variable stays close to its value), whatever other callers infer, draw or "
     "seed in between and whatever callers do with samples and summaries they were given. Seeding numpy's generator "
     "alike repeats them exactly. Neither summarising nor sampling changes the belief, not even when it is interrupted.",
     ["schedules", "histories", "crash_points"],
     "every belief after every history of observations, every interleaving of callers that infer, draw and seed, every "
     "sample size, every interruption point",
     "Tests draw once from one fresh model and look at nothing but that it works.",
     ["pybbn/gaussian/inference.py"],
     [("summaries and draws from them", "pybbn/gaussian/inference.py: P, marginals, sample_marginals")],
     [("M, E, H, meta", "belief state", "pybbn/gaussian/inference.py"), ("global generator of numpy", "shared by all callers", "numpy.random")],
     ["GaussianInference.P", "GaussianInference.marginals", "GaussianInference.sample_marginals"])

prop("C19", "Saves and loads made at the same time do not mix",
     "When several callers save and load at the same time, each save to a file of its own and each load gives what it would "
     "give alone: the file holds exactly the network saved, and what is loaded is exactly what the file holds - also when "
     "callers share the network or join tree they save, load the same file, use files whose names differ in directory, "
     "stem or extension only, or go through dictionaries. Saving and loading do not alter the networks saved, and when the save or load of "
     "one caller fails, that caller is told and the others are not affected.",
     ["schedules", "fault_sequences"],
     "every interleaving of callers by line, bytecode or I/O call, every set of file names, every split, interrupted or "
     "failing call",
     "Tests save and load one file at a time.",
     ["pybbn/graph/dag.py", "pybbn/graph/jointree.py"],
     [("saving and loading", "pybbn/graph/dag.py: to_csv, from_csv, to_dict, from_dict, to_json, from_json; pybbn/graph/jointree.py: to_dict, from_dict")],
     [("files in one directory", "shared durable state", "file system"), ("networks and trees", "shared by the callers", "pybbn/graph/dag.py, pybbn/graph/jointree.py")],
     ["Bbn.to_json", "Bbn.from_json", "Bbn.to_csv", "Bbn.from_csv", "JoinTree.to_dict"])

prop("N01", "Gaussian marginal summaries report the belief's means",
     "The per-variable summaries of a Gaussian belief report its means.",
     ["inputs"], "every mean vector, covariance and observation",
     "Tests pin the opposite sign for one case.",
     ["pybbn/gaussian/inference.py"], [("P, marginals", "pybbn/gaussian/inference.py")])

prop("N02", "Networks learned from data or converted from libpgm are faithful",
     "A network learned from a data frame has the relative frequencies as its tables and one converted from the libpgm "
     "format has the tables of its source, whatever the names, domains and order of parents.",
     ["inputs"], "every data frame and structure, every libpgm network",
     "Tests convert a few fixed networks.",
     ["pybbn/graph/factory.py"], [("relative frequencies per parent combination", "pybbn/graph/factory.py: from_data"),
                                  ("libpgm conversion", "pybbn/graph/factory.py: from_libpgm_discrete_object")])

prop("N03", "The algebra of potentials is the algebra of functions",
     "Multiplying, dividing, marginalising and normalising potentials computes the corresponding operations on functions "
     "of discrete variables, with 0/0 taken as 0.",
     ["inputs"], "every pair of potentials",
     "Tests compute a few products.",
     ["pybbn/graph/potential.py"], [("PotentialUtil", "pybbn/graph/potential.py")])

prop("N04", "Paths, activity and adjustment sets follow d-separation",
     "Path activity, colliders and the confounder and mediator sets reported for a causal graph agree with d-separation "
     "and the backdoor criterion.",
     ["inputs"], "every directed acyclic graph and pair of nodes",
     "No test exercises this module.",
     ["pybbn/causality/do.py"], [("triplet classification", "pybbn/causality/do.py")])

prop("N05", "Exports for other tools and for drawing show the same network",
     "The DNET export and the networkx conversions contain the nodes, edges, values, tables and parent order of the network.",
     ["inputs"], "every network",
     "Tests compare one export.",
     [DAG, GEN], [("to_dne, to_nx_graph, convert_for_drawing", f"{DAG}, {GEN}")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
