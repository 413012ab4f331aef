#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
L = "gegelatilib/src/learn/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))

prop("P01", "Multi-threaded training gives the same result as single-threaded",
 "For the same seed, parameters and copyable environment, training with several threads produces exactly what training with one thread produces, however the threads are scheduled: the same policy graph with the same programs and constants, the same score for every root, the same archive content in the same order, the same best root and the same random generator state after each generation. This holds for the parallel, classification and adversarial agents, for the evaluation phase and for the mutation phase, with and without validation.",
 ["schedules", "inputs", "configurations", "histories"],
 "all thread interleavings, seeds, parameter sets, 2..5 threads, several consecutive generations",
 "The tests compare one sequential and one parallel run per agent under whatever schedule the OS happened to produce, with a fixed seed and one parameter set; an ordering dependency only shows under particular interleavings.",
 [L+"parallelLearningAgent.cpp", L+"adversarialLearningAgent.cpp", "gegelatilib/src/mutator/tpgMutator.cpp", "gegelatilib/src/archive.cpp", "gegelatilib/include/learn/classificationLearningAgent.h"],
 [("per-job archive seeds drawn before the threads start", L+"learningAgent.cpp makeJob"),
  ("results and archives keyed by job index, merged in order after the join", L+"parallelLearningAgent.cpp evaluateAllRootsInParallelCompileResults, mergeArchiveMap"),
  ("one seed per program to mutate", "gegelatilib/src/mutator/tpgMutator.cpp mutateNewProgramBehaviors")],
 [("archiveMap", "temporary archive of each job, by job index", L+"parallelLearningAgent.cpp"),
  ("jobsToProcess", "queue of jobs shared by the workers", L+"parallelLearningAgent.cpp")],
 ["LearningAgent::getTPGGraph", "LearningAgent::getArchive", "LearningAgent::getRNG", "LearningAgent::getBestRoot", "Log::LALogger callbacks"])

prop("P02", "Training is free of data races, memory errors and leaks",
 "During parallel initialisation, evaluation, mutation and validation, no schedule makes two threads access the same memory without synchronisation while one of them writes it, and no thread ever touches freed or out-of-bounds memory. When an agent and its environment are destroyed, every object that training created (environment clones, temporary archives, copied data) has been released exactly once.",
 ["schedules", "histories", "configurations"],
 "all interleavings of the worker threads, all agents, 2..5 threads, several generations, followed by destruction",
 "The unit tests run without a race detector under one OS schedule, and a race that happens to be benign in that schedule passes; ownership of clones and archives is never audited.",
 [L+"parallelLearningAgent.cpp", "gegelatilib/src/mutator/tpgMutator.cpp", "gegelatilib/src/data/dataHandler.cpp", "gegelatilib/include/data/arrayWrapper.h", "gegelatilib/src/archive.cpp"],
 [("mutexes around the job queue, result map and archive map", L+"parallelLearningAgent.cpp slaveEvalJobThread"),
  ("private environment clone and execution engine per worker", L+"parallelLearningAgent.cpp slaveEvalJobThread")],
 [("DataHandler::count", "identifier generator shared by all threads", "gegelatilib/src/data/dataHandler.cpp")],
 ["every memory access of library and environment code", "allocator"])

prop("P03", "Training always progresses: every job once, workers joined, stop honoured",
 "Every generation terminates under every schedule; each job (each root, or each seat of each root in a tournament) is evaluated exactly once and reported exactly once, whatever the ratio of threads to jobs and even when the system refuses to create some of the threads, and no worker thread outlives the call that started it. train() runs the configured number of generations, or stops at the end of the generation during which the stop flag was raised, and returns the number of generations it completed.",
 ["schedules", "configurations", "histories", "fault_sequences"],
 "all schedules including starved and late-starting workers, more threads than jobs, threads that cannot be created, stop flag raised at arbitrary points",
 "Deadlock, lost or doubled jobs need a worker to be delayed at one precise point; the tests see one schedule, with many more jobs than threads.",
 [L+"parallelLearningAgent.cpp", L+"learningAgent.cpp", "gegelatilib/src/mutator/tpgMutator.cpp"],
 [("empty check repeated under the lock before popping", L+"parallelLearningAgent.cpp slaveEvalJobThread"), ("join of all the threads", L+"parallelLearningAgent.cpp evaluateAllRootsInParallelExecute"), ("loop condition on the stop flag", L+"learningAgent.cpp train")],
 [], ["LearningEnvironment::reset calls", "LALogger::logAfterEvaluate", "LearningAgent::train return value", "thread creation and join"])

prop("P04", "Training depends only on the seed, the parameters and the environment",
 "Two trainings with the same agent type, seed, parameters and environment behaviour give identical results, even when memory addresses, address reuse, the content of uninitialised memory, the number of processors and the clock readings differ. Initialising an already used agent again gives the same training as a freshly built agent, and attaching loggers (even on failing streams) or using the instrumented vertices changes nothing to the result.",
 ["schedules", "histories", "configurations", "fault_sequences"],
 "all heap layouts and reuse patterns, clock readings, logger and stream faults, prior use of the agent",
 "Tests run in one process with one allocator behaviour; results that depend on addresses, stale state or clocks are stable there.",
 [L+"learningAgent.cpp", "gegelatilib/src/archive.cpp", L+"adversarialLearningAgent.cpp", "gegelatilib/src/tpg/tpgGraph.cpp", "gegelatilib/src/mutator/rng.cpp", "gegelatilib/src/log/laBasicLogger.cpp"],
 [("list (not set) of vertices and edges so that iteration order is insertion order", "gegelatilib/include/tpg/tpgGraph.h"), ("results of adversarial roots re-ordered by root order rather than by address", L+"adversarialLearningAgent.cpp"), ("init() resets generator, graph, archive, records", L+"learningAgent.cpp init")],
 [("resultsPerRoot", "evaluation records keyed by vertex", L+"learningAgent.cpp"), ("recordingsPerProgram", "archive records keyed by program", "gegelatilib/include/archive.h")],
 ["LearningAgent public API"])

prop("P05", "The archive is a faithful bounded record of the last bids",
 "The archive always holds the most recent accepted recordings, in the order of their evaluation and never more than its maximum size; a copy of the input data is kept exactly as long as a recording refers to it, and is unaffected by later changes of the data it copies. Every recorded value is the value that the recorded program computes on that stored copy. Asking whether results are unique answers no exactly when some archived program has all its recordings on the given data within the tolerance of the given results (and at least one such recording).",
 ["histories", "schedules", "configurations"],
 "all interleavings of archived evaluations by several workers, all sizes and probabilities, any history of insertions, clears and merges",
 "Tests insert a handful of recordings by hand; eviction, sharing of copies between recordings and merging of per-worker archives interact over long histories only.",
 ["gegelatilib/src/archive.cpp", L+"parallelLearningAgent.cpp", "gegelatilib/src/tpg/tpgExecutionEngine.cpp"],
 [("eviction loop with usage search", "gegelatilib/src/archive.cpp addRecording"), ("backward scan of temporary archives", L+"parallelLearningAgent.cpp mergeArchiveMap")],
 [("recordings", "queue of recordings", "gegelatilib/include/archive.h"), ("dataHandlers", "copies of data by combined hash", "gegelatilib/include/archive.h")],
 ["Archive::at", "Archive::getNbRecordings", "Archive::getDataHandlers", "Archive::hasDataHandlers", "Archive::areProgramResultsUnique"])

prop("P06", "Scores are exact means and the best root is tracked",
 "The score reported for a root is the mean of the environment's scores over the configured iterations, combined over generations as a mean weighted by the number of evaluations; the score of a classification environment is the mean over its classes of the F1 scores of the actions made since its reset; a root already evaluated the maximum number of times is not evaluated again in training and keeps its score. After every generation the recorded best root is a vertex that still exists in the graph, with its latest combined score; another root replaces it only when it scores strictly higher or when the former best root has disappeared, and then it is one of the best scored survivors. Keeping the best policy leaves exactly the best root and what it reaches.",
 ["histories", "schedules", "configurations"],
 "multi-generation histories with ties, evaluation caps, decimation and validation, for plain and classification agents",
 "Tests check single combinations of two results; the records evolve over generations interleaved with removals and re-creations of vertices.",
 [L+"learningAgent.cpp", L+"evaluationResult.cpp", L+"classificationEvaluationResult.cpp", "gegelatilib/include/learn/classificationLearningAgent.h"],
 [("operator+= weighted mean", L+"evaluationResult.cpp"), ("resultsPerRoot", L+"learningAgent.cpp updateEvaluationRecords"), ("isRootEvalSkipped", L+"learningAgent.cpp")],
 [], ["LALogger::logAfterEvaluate", "LearningAgent::getBestRoot", "LearningAgent::isRootEvalSkipped", "LearningAgent::getBestScoreLastGen", "LearningAgent::keepBestPolicy"])

prop("P07", "Selection removes exactly the worst teams; repopulation restores the count",
 "At the end of a generation the number of removed root teams is the configured ratio of the configured number of roots (rounded down, or all root teams if fewer), no removed team scored strictly better than a kept one, root actions are never removed, and nothing but roots is removed. The classification agent removes the configured ratio of the current roots and keeps the roots that are best for each class before filling with the best overall. Populating then brings the number of roots back to at least the configured number without removing or altering any pre-existing team, its outgoing edges or its programs.",
 ["histories", "configurations", "schedules"],
 "multi-generation histories of random graphs, ties, root actions, all ratios, with parallel mutation",
 "Tests check one decimation on a hand-made result map.",
 [L+"learningAgent.cpp", "gegelatilib/include/learn/classificationLearningAgent.h", "gegelatilib/src/mutator/tpgMutator.cpp"],
 [("loop over the sorted results", L+"learningAgent.cpp decimateWorstRoots"), ("populate loop on the number of roots", "gegelatilib/src/mutator/tpgMutator.cpp populateTPG")],
 [], ["TPGGraph::getRootVertices before and after each phase (LALogger callbacks)"])

prop("P08", "The policy graph stays well formed through any training history",
 "After every initialisation, population and selection step the graph is acyclic, every edge links two vertices of the graph and is listed exactly once by its source and its destination, actions have no outgoing edge and each action index is valid and unique, every team has at least two edges and at most the configured maximum (or the configured initial maximum, when that is larger), at least one path leads every root to an action, and every program has lines within the configured maximum whose indices designate existing instructions, registers and type-compatible operands, with constants inside the configured bounds. The number of edges and vertices only counts live objects, and a graph operation that is refused with an exception leaves the graph intact.",
 ["histories", "inputs", "schedules", "configurations"],
 "long mutation and selection histories from random seeds and parameters, with mutations executed by several threads",
 "Tests apply each operator once; malformed graphs appear after combinations of operators over generations.",
 ["gegelatilib/src/mutator/tpgMutator.cpp", "gegelatilib/src/mutator/programMutator.cpp", "gegelatilib/src/mutator/lineMutator.cpp", "gegelatilib/src/tpg/tpgGraph.cpp"],
 [("targets only among pre-existing vertices", "gegelatilib/src/mutator/tpgMutator.cpp populateTPG"), ("edge registration in both vertices", "gegelatilib/src/tpg/tpgGraph.cpp"), ("operand type check", "gegelatilib/src/mutator/lineMutator.cpp")],
 [], ["TPGGraph::getVertices", "TPGGraph::getEdges", "Program::getLine"])

prop("P09", "Every decision taken during training follows the policy graph semantics",
 "Each action given to the environment is the one reached from the evaluated root by following, at each team, the edge whose program bids highest on the current data (NaN counts as minus infinity, the last of equal bids wins), where a program's bid is the content of its first register after executing its lines in order on zeroed registers. Marking and skipping lines without effect never changes a bid. This holds for each worker with its own copy of the data, whatever other workers do at the same time.",
 ["schedules", "inputs", "histories"],
 "all evaluations performed by 1..5 workers on random evolved graphs and evolving data, all interleavings",
 "Tests run hand-written programs on one thread; interference between engines sharing programs, and wrong skipping of lines, needs evolved programs and concurrent workers.",
 ["gegelatilib/src/tpg/tpgExecutionEngine.cpp", "gegelatilib/src/program/programEngine.cpp", "gegelatilib/src/program/programExecutionEngine.cpp", "gegelatilib/src/program/program.cpp", "gegelatilib/include/data/arrayWrapper.h"],
 [("registers reset per program", "gegelatilib/src/program/programExecutionEngine.cpp"), ("comparison of bids", "gegelatilib/src/tpg/tpgExecutionEngine.cpp evaluateTeam"), ("intron identification", "gegelatilib/src/program/program.cpp identifyIntrons")],
 [], ["LearningEnvironment::doAction argument, compared with an independent interpreter"])

prop("P10", "Environments are driven by the documented protocol and never shared",
 "Each evaluation resets the environment once per iteration, with the evaluation mode, the iteration number, the generation number and a seed that depends only on the generation and the iteration, then performs actions until the environment is terminal or the maximum number of actions is reached, and reads the score once afterwards. An instance is used by one thread at a time, workers other than the calling thread use their own clone of the environment, and every clone is destroyed by the end of the call. With an environment that cannot be copied only one thread is used, or (adversarial agent) an exception is raised before any evaluation.",
 ["schedules", "configurations", "histories"],
 "all interleavings, all agents, copyable and non-copyable environments, training and validation",
 "Tests use one environment without recording the protocol, and cannot see which thread used which instance.",
 [L+"learningAgent.cpp", L+"parallelLearningAgent.cpp", L+"adversarialLearningAgent.cpp", "gegelatilib/include/learn/classificationLearningAgent.h", "gegelatilib/include/learn/learningEnvironment.h"],
 [("reset/doAction/getScore loop", L+"learningAgent.cpp evaluateJob"), ("clone per slave thread", L+"parallelLearningAgent.cpp slaveEvalJobThread"), ("isCopyable test", L+"parallelLearningAgent.cpp evaluateAllRoots")],
 [], ["every call on LearningEnvironment, with the calling thread and instance"])

prop("P11", "Validation never influences training",
 "Evaluating roots in validation or testing mode records nothing in the archive, changes no stored training score, evaluation count, best root or graph, and reports one result per root that reflects only that evaluation. For the learning, parallel and classification agents, training with validation enabled gives exactly the same graphs, scores, archives and random generator state as training without it.",
 ["histories", "schedules", "configurations"],
 "any interleaving of validation and training evaluations over generations, several threads",
 "Tests check that validation runs, not that the rest of the history is unaffected.",
 [L+"learningAgent.cpp", L+"parallelLearningAgent.cpp", L+"adversarialLearningAgent.cpp"],
 [("archive only attached in training mode", L+"learningAgent.cpp evaluateAllRoots"), ("archive seeds only drawn in training mode", L+"learningAgent.cpp makeJob")],
 [], ["LALogger::logAfterValidate", "LearningAgent public API"])

prop("P12", "Execution instrumentation counts exactly",
 "With the instrumented factory, after evaluations by any number of threads, the visit counters of each vertex and edge and the traversal counters of each edge are exactly the number of visits and traversals performed, no increment being lost or doubled, and resetting brings them all to zero. Execution statistics computed from an instrumented run report the exact per-inference averages and distributions of evaluated teams and programs, and of the lines and instructions of those programs. Removing from the graph the vertices and edges that were never used leaves every decision taken so far unchanged.",
 ["schedules", "histories"],
 "all interleavings of counter updates by 1..5 workers on shared graphs; any recorded execution trace",
 "A lost update needs two workers to collide on one counter; tests count on one thread.",
 ["gegelatilib/src/tpg/instrumented/tpgExecutionEngineInstrumented.cpp", "gegelatilib/src/tpg/instrumented/executionStats.cpp", "gegelatilib/src/tpg/instrumented/tpgInstrumentedFactory.cpp"],
 [("atomic counters", "gegelatilib/include/tpg/instrumented/tpgVertexInstrumentation.h")],
 [], ["TPGVertexInstrumentation::getNbVisits", "TPGEdgeInstrumented::getNbTraversal", "ExecutionStats getters"])

prop("P13", "Adversarial tournaments are complete and scored per root",
 "In each adversarial evaluation every root plays at every seat against every team of champions, the champions being vertices of the current graph, and each seat is played in turn order by the program assigned to it. The result of a root is the mean, weighted by the number of iterations, of the scores of its own seat only, and champions for the next evaluation are the best scored roots, in the number given by the kept ratio. Nothing refers to vertices that no longer exist.",
 ["schedules", "histories", "configurations"],
 "all interleavings of jobs by 1..5 workers, 2..3 seats, all ratios, several generations and re-initialisations",
 "Tests use constant scores per seat and one schedule; lineups and attribution are not recorded.",
 [L+"adversarialLearningAgent.cpp", L+"adversarialEvaluationResult.cpp", L+"adversarialJob.cpp"],
 [("jobs for each seat and champions team", L+"adversarialLearningAgent.cpp makeJobs"), ("posOfStudiedRoot", L+"adversarialJob.cpp")],
 [("champions", "best roots of the last evaluation", "gegelatilib/include/learn/adversarialLearningAgent.h")],
 ["doAction sequence and getScores of AdversarialLearningEnvironment", "evaluateAllRoots result"])

prop("P14", "A saved policy graph is either restored exactly or refused",
 "Exporting a graph and importing the file into an environment with the same structure restores the same policy: same teams and actions, same edge order, same programs and constants, same decisions on any data, and exporting that graph again gives the same file. When the disk misbehaves (errors, full disk, short or interrupted operations) an export that reports success has written the complete file, and importing a file cut at any point raises an error rather than yielding a different graph.",
 ["crash_points", "fault_sequences", "inputs", "histories"],
 "evolved graphs, every truncation point, all sequences of I/O faults during export and import, exports repeated during training",
 "Tests export and import one small graph on a healthy disk.",
 ["gegelatilib/src/file/tpgGraphDotExporter.cpp", "gegelatilib/src/file/tpgGraphDotImporter.cpp"],
 [("one text line per vertex, program and link", "gegelatilib/src/file/tpgGraphDotExporter.cpp"), ("regular expressions per line kind", "gegelatilib/src/file/tpgGraphDotImporter.cpp")],
 [], ["file content on the simulated disk", "TPGGraph after import"])

prop("P15", "Parameter files round-trip and bad files never load silently",
 "Writing learning parameters and loading the file gives back every parameter (probabilities with the six significant digits that the file keeps), whatever the parameters they are loaded into held, and a parameter absent from a file keeps the value it had. When the disk misbehaves, writing either reports the failure or leaves the complete file; loading a file that is cut, unreadable or not valid JSON, or that is refused because a value is not of the type of its parameter, leaves all the parameters unchanged, and never crashes.",
 ["crash_points", "fault_sequences", "inputs"],
 "random parameter values, every truncation point of the file, all I/O faults during write and read",
 "Tests load one well-formed file.",
 ["gegelatilib/src/file/parametersParser.cpp", "gegelatilib/include/file/parametersParser.h", "gegelatilib/include/learn/learningParameters.h"],
 [("JsonCpp reader", "gegelatilib/src/file/parametersParser.cpp readConfigFile"), ("setParameterFromString", "gegelatilib/src/file/parametersParser.cpp")],
 [], ["File::ParametersParser", "LearningParameters fields"])

prop("P16", "Training logs are complete and true, whatever the clock and the stream do",
 "The training log has one row per generation, in order, whose generation number, vertex count, minimum, average and maximum scores are those of that generation, in training and in validation. Its durations are the monotonic time elapsed during population, during evaluation, from there to the end of validation, and since the logger was created, so that they are never negative and do not change when the wall clock jumps. The cycle detection log mentions a cycle if and only if there is one (and its absence, when asked to, only if there is none), and the statistics log describes each new best policy once, with its actual composition. A stream that fails never disturbs training.",
 ["fault_sequences", "histories", "schedules"],
 "clock jumps and stream failures at arbitrary points of multi-generation trainings, several threads",
 "Tests check the log text of one hand-made generation with real time.",
 ["gegelatilib/src/log/laBasicLogger.cpp", "gegelatilib/src/log/laLogger.cpp", "gegelatilib/include/log/laPolicyStatsLogger.h", "gegelatilib/src/log/cycleDetectionLALogger.cpp", "gegelatilib/src/tpg/policyStats.cpp"],
 [("chrono clock checkpoints", "gegelatilib/src/log/laLogger.cpp"), ("row printing", "gegelatilib/src/log/laBasicLogger.cpp")],
 [], ["text written on the logger stream"])

prop("P17", "Generated C code is complete and decides like the policy graph",
 "The C code generated for a policy graph whose instructions all have a printable template, by either generation mode (switch or stack) and with distinct actions, compiles and chooses for any data, from the root of the policy (the first root of the graph), the same action as the execution engine does on the same graph; the code of each program returns the very same value as the program execution engine, whatever the number, types and shapes of the data sources, registers, constants and operands. Programs with an instruction that has no template are refused with an error. When the disk misbehaves during generation, either an error is raised or the files on the disk are complete (or are refused by the compiler); generating again afterwards gives the complete files.",
 ["fault_sequences", "inputs", "histories"],
 "evolved graphs, data of several types and shapes including NaN and infinities, constants, multi-word types, shared and single-action graphs, all I/O faults and full disks at any point of the generation",
 "Tests generate a few hand-made programs on a healthy disk.",
 ["gegelatilib/src/codeGen/tpgGenerationEngine.cpp", "gegelatilib/src/codeGen/tpgSwitchGenerationEngine.cpp", "gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp", "gegelatilib/src/codeGen/programGenerationEngine.cpp"],
 [("one function per program and per team", "gegelatilib/src/codeGen/"), ("streams opened in constructors", "gegelatilib/src/codeGen/tpgGenerationEngine.cpp")],
 [], ["generated files on the simulated disk, compiled and executed"])

prop("P18", "Mutated programs behave differently from what the archive has seen",
 "After a population step, every program created by mutation gives, on the archived data, results that no archived program already gave on all its recordings (within the tolerance of the archive), and, when behaviour change is required, differs in its effective lines or constants from the program it was copied from. Programs not created by this step are left untouched even when they are shared between teams, and each new program belongs to exactly one edge.",
 ["schedules", "histories", "inputs"],
 "parallel mutations under all interleavings, any archive content, with and without the behaviour-change requirement",
 "Tests check one mutation against an archive with a few records on one thread.",
 ["gegelatilib/src/mutator/tpgMutator.cpp", "gegelatilib/src/archive.cpp", "gegelatilib/src/program/program.cpp"],
 [("mutate until unique", "gegelatilib/src/mutator/tpgMutator.cpp mutateProgramBehaviorAgainstArchive"), ("copy of the program before mutation", "gegelatilib/src/mutator/tpgMutator.cpp mutateOutgoingEdge")],
 [], ["graph and archive at LALogger::logAfterPopulateTPG"])

prop("P19", "Data handlers give exactly the data written, whatever the history",
 "For every data handler (owned and wrapped arrays of one and two dimensions, of any type and shape), type and address below its address space, reading gives the stored element, row or sub-array designated by the address, whatever writes, copies, assignments, resets, pointer changes and earlier reads happened, and whichever threads read other handlers or this one at the same time; an array obtained earlier does not change with later writes. The address space, the addresses used and the scaled location are those of the type and shape. The hash of a handler depends only on its identifier and its whole content: equal when both are equal (also for copies, clones and data restored), different when an element differs. Clones are independent of the original. What is refused (unsupported types, reading without data, assigning data of another size) raises the documented exception and changes nothing.",
 ["histories", "schedules", "inputs"],
 "histories of writes, copies, resets and reads on all types and shapes, with several readers under random schedules and address reuse",
 "Tests read a few addresses of a few shapes once, on one thread, with data that never changes after the first read.",
 ["gegelatilib/include/data/arrayWrapper.h", "gegelatilib/include/data/array2DWrapper.h", "gegelatilib/include/data/primitiveTypeArray.h", "gegelatilib/include/data/primitiveTypeArray2D.h", "gegelatilib/include/data/pointerWrapper.h", "gegelatilib/src/data/dataHandler.cpp"],
 [("hash kept until the data is marked as modified", "gegelatilib/src/data/dataHandler.cpp getHash"), ("address spaces kept per type", "gegelatilib/include/data/arrayWrapper.h getAddressSpace")],
 [], ["DataHandler::getDataAt", "DataHandler::getHash", "DataHandler::getAddressSpace"])

prop("P20", "Files of execution statistics are complete and true, or refused with an error",
 "After an analysis, the JSON file written by ExecutionStats gives the averages, the distributions and one entry per trace, with the indices of the visited vertices, of exactly the inferences made since the counters and the traces were cleared, whatever was analysed before with the same object and however the graph changed in between; it does not depend on the indentation nor on other files being written at the same time. When the disk misbehaves, either an error is raised or the file on the disk is complete; no file stays open, and writing again afterwards gives the complete file.",
 ["fault_sequences", "histories", "inputs"],
 "all I/O faults and full disks at any point of the writing, histories of inferences, trainings, resets and analyses",
 "Tests compare one file with a reference, for one hand-made graph on a healthy disk.",
 ["gegelatilib/src/tpg/instrumented/executionStats.cpp", "gegelatilib/src/tpg/instrumented/tpgExecutionEngineInstrumented.cpp"],
 [("clearInferenceTracesStats before each analysis", "gegelatilib/src/tpg/instrumented/executionStats.cpp analyzeExecution"), ("stream checked after closing", "gegelatilib/src/tpg/instrumented/executionStats.cpp writeStatsToJson")],
 [], ["file on the simulated disk"])

prop("P21", "A failing environment never hangs, kills or corrupts a training",
 "An exception thrown by the environment (while it is reset, acts, is asked whether the game is over, its score or its data sources, or is cloned) or by an instruction, in whichever thread evaluates or mutates, reaches the caller of the training or evaluation unchanged and after every thread has ended; none is lost and the process is neither ended nor blocked. No clone of the environment, archive, thread or memory remains; the graph and the archive stay consistent. The same evaluation made again gives the results it gives without any failure, and the agent initialised again trains exactly as a new one.",
 ["schedules", "fault_sequences", "configurations"],
 "all schedules, threads from 1 to 9, failures at any call of the environment or of an instruction in one or several jobs, thread creation refused",
 "Tests use environments that never fail; the outcome of a failure depends on which thread meets it and on what the others do meanwhile.",
 ["gegelatilib/src/learn/parallelLearningAgent.cpp", "gegelatilib/src/learn/learningAgent.cpp", "gegelatilib/src/learn/adversarialLearningAgent.cpp", "gegelatilib/src/mutator/tpgMutator.cpp"],
 [("failure kept by workers and rethrown after they are joined", "gegelatilib/src/learn/parallelLearningAgent.cpp evaluateAllRootsInParallelExecute"), ("failure of a mutation rethrown", "gegelatilib/src/mutator/tpgMutator.cpp mutateNewProgramBehaviors")],
 [], ["environment may throw at each of its calls"])

prop("P22", "Programs, lines and environments are exactly what their edits made them",
 "After any history of edits, copies and mutations, and whatever other threads do with their own programs over the same environments, a program has exactly the lines and constants that its edits gave it. Positions, operands and checked values that do not exist are refused with the documented error and change nothing. Copies are independent, and no two programs have the same identifier. The lines marked as introns are exactly those that cannot influence the result; skipping or removing them does not change it. Two programs have identical behaviour exactly when their other lines and the constants these use are the same. Each mutation makes the change it announces, within its bounds, and leaves a program that its environment can execute. An environment offers exactly the instructions that its sources can serve, is refused when no program could use it, and its copies do not depend on it.",
 ["histories", "schedules", "inputs"],
 "histories of edits, mutations, refused operations, copies and executions of many programs by one to four threads, environments with any sources, registers and constants",
 "Tests edit small programs by hand, in one thread and one environment.",
 ["gegelatilib/src/program/program.cpp", "gegelatilib/src/program/line.cpp", "gegelatilib/src/program/programEngine.cpp", "gegelatilib/src/mutator/programMutator.cpp", "gegelatilib/src/mutator/lineMutator.cpp", "gegelatilib/src/environment.cpp"],
 [("dependency analysis", "gegelatilib/src/program/program.cpp identifyIntrons"), ("valid alterations of lines", "gegelatilib/src/mutator/lineMutator.cpp alterCorrectLine"), ("instructions that no source can serve are left out", "gegelatilib/src/environment.cpp filterInstructionSet")],
 [], [])

prop("P23", "Agents used in one process do not influence each other",
 "Everything an agent does (training of any kind, evaluations, statistics, export and import of its graph, parameter files, generated code, inferences, selection of its best policy, its generator and archive) gives exactly the same result, whatever the other agents of the process do: before it, in turn with it, at the same time in other threads, or inside it (from its environment or its instructions), even when they share their instructions. An agent that is not used does not change. Nothing is shared without synchronisation.",
 ["schedules", "histories", "configurations"],
 "all schedules of two or three agents of any kinds, parameters, environments and histories of calls",
 "Tests use agents one after the other in one thread and never compare an agent with the same agent among others.",
 ["gegelatilib/src/learn/learningAgent.cpp", "gegelatilib/src/learn/parallelLearningAgent.cpp", "gegelatilib/src/mutator/tpgMutator.cpp", "gegelatilib/src/mutator/lineMutator.cpp", "gegelatilib/src/tpg/tpgExecutionEngine.cpp", "gegelatilib/src/program/program.cpp", "gegelatilib/include/data/arrayWrapper.h"],
 [("identifiers given atomically, no other mutable static", "gegelatilib/src/program/program.cpp nextId"), ("queue of the programs to mutate local to each call", "gegelatilib/src/mutator/tpgMutator.cpp mutateNewProgramBehaviors")],
 [], [])

prop("N01", "Random draws follow the documented distributions",
 "Each mutation operator is applied with the configured probability and random choices are uniform among the eligible candidates.",
 ["inputs"], "distribution over seeds", "A statistical statement about a pseudo-random function of the seed.",
 ["gegelatilib/src/mutator/rng.cpp", "gegelatilib/include/mutator/deterministicRandom.h"], [("deterministic distributions", "gegelatilib/include/mutator/deterministicRandom.h")])
prop("N03", "Results are the same on every platform and compiler",
 "For the same seed and parameters, training gives the same result whatever the operating system, processor and compiler.",
 ["configurations"], "all supported platforms", "One platform is available to the tests at a time.",
 ["gegelatilib/include/mutator/deterministicRandom.h"], [("re-implemented distributions", "gegelatilib/include/mutator/deterministicRandom.h")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
