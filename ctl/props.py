# Settings of the checks.
SCHED = ("Each run draws an agent, its parameters and environment, a "
         "scheduling strategy with its parameters and a heap policy from the "
         "seed.")
PROPS = {
    "P01": dict(tech="random schedules of the worker threads, compared with the single-threaded execution",
                note="Random search over schedules, heap layouts and configurations; any difference of graph, scores, archive, best root or generator state is reported. Exploration, not proof; interleavings are sequentially consistent.",
                quick_s=30, thorough_s=900, rule=SCHED + " It trains twice, "
                "with one thread and with several, and compares."),
    "P02": dict(steps=12000000, tech="happens-before race detection, allocation shadow and leak accounting under random schedules",
                note="Every instrumented access of every explored schedule is checked; code compiled without instrumentation (libstdc++) is seen through its allocations and the library's inlined accesses only.",
                quick_s=40, thorough_s=1200, rule=SCHED +
                " It trains under race, memory error and leak detection."),
    "P03": dict(confirm_long=True, tech="random schedules, stop requests at drawn points, deadlock and bounded-progress detection",
                note="Progress is bounded by simulated steps; a run past the bound is repeated with a thirty times larger one before it is reported.",
                quick_s=30, thorough_s=900, rule=SCHED + " It runs train() "
                "with a stop request raised at a drawn point."),
    "P04": dict(tech="same training replayed under perturbed memory, clock, processors, loggers and agent history",
                note="Exploration over perturbations drawn from the seed.",
                quick_s=35, thorough_s=900, rule=SCHED + " It trains twice, "
                "the second time with another memory layout, other "
                "uninitialised memory, clock, processor count, loggers or "
                "earlier use of the agent."),
    "P05": dict(tech="archive compared with a reference model after every generation and every operation of a drawn history",
                note="The model is fed by the bids of an independent interpreter; both the archive of a training under random schedules and an archive driven directly with drawn histories are checked.",
                quick_s=30, thorough_s=900, rule=SCHED + " It compares the "
                "archive with a model after each phase, or after each of a "
                "drawn sequence of operations."),
    "P06": dict(tech="scores, evaluation records and best root compared with a reference model over multi-generation histories",
                note="The model recomputes every mean from the scores that the environments actually returned.",
                quick_s=30, thorough_s=900, rule=SCHED + " It recomputes "
                "scores, records and the best root after each generation."),
    "P07": dict(tech="snapshots of the graph around selection and population compared under random schedules",
                note="Ties may be broken in any way; only counts, strict order of scores and untouched survivors are required.",
                quick_s=25, thorough_s=900, rule=SCHED + " It compares "
                "snapshots of the graph around each phase."),
    "P08": dict(tech="structural invariants of graph and programs after each phase of random histories, and after random graph operations including refused ones",
                note="Every vertex, edge, line and constant is examined after each step of each explored history.",
                quick_s=25, thorough_s=900, rule=SCHED + " It examines the "
                "whole graph after each phase or operation."),
    "P09": dict(tech="each action given to the environments compared with an independent interpreter, under random schedules",
                note="The interpreter reads the lines and data through their public accessors and does not use the engines of the library.",
                quick_s=30, thorough_s=900, rule=SCHED + " It recomputes "
                "each decision of each worker."),
    "P10": dict(tech="recorded history of all the calls on the environments checked against the protocol automaton, under random schedules",
                note="The calls are recorded with their thread and instance by the simulated environments.",
                quick_s=25, thorough_s=900, rule=SCHED + " It checks the "
                "recorded calls of each instance of the environment."),
    "P11": dict(tech="twin executions with and without validation, and state compared around each validation, under random schedules",
                note="Twin runs share the seed; any difference in graph, scores, archive, best root or generator state is reported.",
                quick_s=30, thorough_s=900, rule=SCHED + " It compares the "
                "state around validations, and training with and without."),
    "P12": dict(steps=12000000, tech="instrumentation counters compared with the visits recounted by an independent interpreter, under random schedules",
                note="Counts are recomputed from the recorded data of every inference.",
                quick_s=30, thorough_s=900, rule=SCHED + " It recounts all "
                "visits and traversals."),
    "P13": dict(tech="recorded tournaments compared with the expected lineups and means, under random schedules",
                note="Champions may be any of the equally scored best roots.",
                quick_s=25, thorough_s=900, rule=SCHED + " It recounts the "
                "tournaments of each evaluation of an adversarial agent."),
    "P14": dict(steps=40000000, confirm_long=True, tech="exports and imports on a simulated disk with write errors, full disk, torn and cut files, compared with the exported graph",
                note="Every file whose export reported success is compared with an export on a healthy disk, imported elsewhere, compared and exported again; each cut or torn file must be refused or give the same graph. Cuts are sampled, with a bias to line ends.",
                quick_s=30, thorough_s=900, rule="Each run draws a training, "
                "a disk with its faults and a sequence of exports (new or "
                "reused exporter, whole graph or subgraph, during or after "
                "the training), imports, cuts and power failures from the "
                "seed."),
    "P15": dict(steps=60000000, tech="parameter files written, cut, damaged and loaded on a simulated disk with faults and power failures, compared with the parameters written",
                note="Probabilities are compared to the six digits that files hold. Cuts and damages are sampled, with a bias to the structure of the document.",
                quick_s=25, thorough_s=600, rule="Each run draws "
                "parameters, a disk with its faults and a sequence of writes, "
                "overwrites, loads, cuts, damages and power failures from the "
                "seed; some also train with the reloaded parameters."),
    "P16": dict(tech="text of the logs compared with the recorded phases under clock jumps, failing streams and random schedules",
                note="Durations are bounded by simulated time read just before and after the logger; cyclic graphs are built by random edits.",
                quick_s=25, thorough_s=900, rule=SCHED + " It rewrites what "
                "each log must say while the clock jumps and streams fail."),
    "P17": dict(steps=20000000, tech="code generated on a simulated disk with faults, compiled, executed and compared with the execution engine on the same graph and data",
                note="Shape, data and instruction set are sampled; gcc compiles the code for one platform. Probabilities of disk faults are drawn per run.",
                quick_s=60, thorough_s=900, rule="Each run draws "
                "data sources, an instruction set, an evolved graph, a "
                "generation mode and a sequence of disk faults from the seed, "
                "then compiles and runs the generated code."),
    "P18": dict(tech="programs before and after population compared, and their results recomputed on the archive, under random schedules",
                note="Results are recomputed by an independent interpreter on the archived copies; parents are known from the factory the agent was given.",
                quick_s=30, thorough_s=900, rule=SCHED + " It examines each "
                "program created by each population step."),
    "P19": dict(tech="random histories of writes, copies, resets and concurrent reads of data handlers under random schedules and heap policies, compared with a reference model",
                note="Types, shapes and addresses are sampled; the difference of two hashes of different data is probabilistic, 64-bit collisions are ignored.",
                quick_s=25, thorough_s=600, rule="Each run draws handlers of "
                "all kinds, types and shapes, a history of operations on "
                "them, the threads that read them and their schedule from "
                "the seed."),
    "P20": dict(steps=60000000, tech="statistics of random histories of inferences written on a simulated disk with faults, compared with a reference count",
                note="Numbers are compared to the six digits that files hold. Vertices are identified by their position in the graph at the time of the analysis.",
                quick_s=25, thorough_s=600, rule="Each run draws a "
                "training, a history of inferences, resets, graph changes and "
                "analyses, and a disk with its faults from the seed."),
    "P21": dict(steps=60000000, tech="trainings and evaluations whose environment or instructions throw at drawn calls, in drawn schedules, compared with the same ones without failure",
                note="Only failures of the environment and of the instructions are injected (std::bad_alloc thrown by them included); allocations made by the library itself do not fail.",
                quick_s=30, thorough_s=900, rule="Each run draws a "
                "configuration, the calls that fail, the type and number of "
                "failures, a history of calls of the agent and a schedule "
                "from the seed."),
    "P22": dict(tech="random histories of edits, mutations and executions of programs by several threads over shared environments, compared with a reference model of programs",
                note="Programs of up to some 60 lines, environments of up to three sources; distributions of the draws are not judged.",
                quick_s=30, thorough_s=900, rule="Each run draws "
                "environments, the number of threads, the history of each "
                "and their schedule from the seed."),
    "P23": dict(tech="histories of two or three agents made alone, then in threads, in turn or one inside the other under drawn schedules, and compared; race detection",
                note="Times written by loggers and names given by an exporter that is kept while the graph changes are not compared.",
                quick_s=30, thorough_s=900, rule="Each run draws "
                "the agents, their histories, the way they are mixed and a "
                "schedule from the seed."),
}

NOT_APPLICABLE = {
    "N01": "A statistical statement about a pure function of a pseudo-random seed: no schedule, clock, I/O or fault can influence it, so simulation adds nothing to repeated calls.",
    "N03": "Needs other platforms and compilers; one simulator process runs one compiled binary on one platform.",
}
