#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})

# ---------------------------------------------------------------- common
prop("C01", "Bounded buffer: exactly once, in order, within capacity, no lost wake-up",
     "A bounded buffer shared by any number of producers and consumers hands out every accepted item exactly once and in the order of acceptance, never holds more than its capacity, and reports size, remaining space and the success of every blocking, timed and non-blocking operation truthfully; an operation that is refused leaves its argument alone. An operation that can proceed does proceed: a blocked producer or consumer is released by any kind of matching operation.",
     ["schedules", "histories"], "all interleavings of producers and consumers using any mix of the push and pop variants, all capacities including unbounded",
     "The unit tests do not exercise the buffer at all; the schedules in which a wake-up is lost need a blocked thread and a particular kind of counterpart operation.",
     ["include/common/GBoundedBufferT.hpp"], [("mutex and the two condition variables", "include/common/GBoundedBufferT.hpp")], ["return values of push and pop calls", "size()", "the items popped"])
prop("C02", "Thread pool runs every job exactly once and delivers its result",
     "Every job given to a thread pool is run exactly once by one of its threads, and its result or exception reaches the future that was handed out for it. Waiting for the pool (and destroying it) returns only when all jobs submitted before have ended, never more jobs run at a time than the pool has threads, and changing the number of threads at any time neither loses, repeats nor stalls a job.",
     ["schedules", "histories"], "all sequences and interleavings of scheduling (jobs with and without result, throwing or not), waiting, resizing and destruction",
     "No test schedules jobs while the pool is resized, looks at futures of jobs without a result, or counts executions.",
     ["include/common/GThreadPool.hpp", "src/common/GThreadPool.cpp", "include/common/GThreadGroup.hpp"], [("job counter, submission mutex, promise per job", "include/common/GThreadPool.hpp")], ["futures", "side effects of jobs", "wait()"])
prop("C03", "A barrier releases its threads only when all of them have arrived",
     "A barrier made for n threads lets none of them pass before all n have arrived, then releases all of them, and can be used for any number of rounds in a row; exactly one caller per round is told that it completed the round. A barrier for zero threads is refused.",
     ["schedules"], "all thread counts, numbers of rounds and arrival orders",
     "No test runs the barrier with more than one thread.",
     ["include/common/GBarrier.hpp"], [("generation counter", "include/common/GBarrier.hpp")], ["return of wait()"])
prop("C04", "A priority queue of limited size always holds the best items seen",
     "A fixed-size priority queue holds, after any history of additions, exactly the best items it was given (in the chosen direction, up to its size limit, a limit of zero meaning unlimited), sorted from best to worst, without duplicates where these are ruled out. Its best and worst entry, size and removal operations agree with that content, and items handed out as clones are independent of it.",
     ["histories", "inputs"], "all sequences of single and bulk additions, removals, limit changes, directions and ties",
     "Tests only move the queue through construction and copying; the effect of additions on a partly filled or full queue is not compared with a model.",
     ["include/common/GFixedSizePriorityQueueT.hpp", "include/geneva/GParameterSetFixedSizePriorityQueue.hpp", "src/geneva/GParameterSetFixedSizePriorityQueue.cpp"], [("add()", "include/common/GFixedSizePriorityQueueT.hpp")], ["toVector()", "best()", "worst()", "pop()"])
prop("C05", "Configuration files and command lines deliver exactly the values given",
     "A configuration file written by the library and read back delivers exactly the values it was written with; in any valid file, values changed by the user reach their targets unaltered, options left out of the file keep their documented defaults, and the same holds for options of a command line. A missing file is created with the current defaults, and a file that is not well-formed or lacks the expected structure is reported as an error and is never silently taken as a valid configuration.",
     ["inputs", "configurations"], "all sets of registered options of all supported kinds and all values, files and argument lists",
     "Tests parse a handful of fixed files; round-trips over arbitrary values, omitted options and vector or array options are not covered.",
     ["include/common/GParserBuilder.hpp", "src/common/GParserBuilder.cpp"], [("register...Parameter, parseConfigFile, writeConfigFile, parseCommandLine", "include/common/GParserBuilder.hpp")], ["values of the registered variables and call-backs", "the written file"])
prop("C06", "Formulas evaluate to their mathematical value",
     "A formula given as text evaluates, for all operators, functions, constants, nesting and placeholder values it supports, to the value of that mathematical expression with the usual precedence and associativity, independent of white space. A text that is not a formula, and a division by zero, are reported as errors and do not yield a number.",
     ["inputs"], "all expressions of the supported grammar and all placeholder values",
     "The existing test evaluates a small fixed list of formulas.",
     ["include/common/GFormulaParserT.hpp", "src/common/GFormulaParserT.cpp"], [("grammar and stack machine", "include/common/GFormulaParserT.hpp")], ["evaluate()"])
prop("C07", "Object vectors behave like a standard vector with owned copies",
     "The vectors of objects and of plain values that parameter sets and populations are built from behave, under any sequence of insertions, removals, resizes, searches, swaps and assignments, like a standard vector of the same elements. Copies are deep: changing an element of a copy, or a cloned insertion's original, never changes the vector it came from, and comparison of two vectors is by content.",
     ["histories"], "all sequences of vector operations",
     "Tests call each operation a few times with fixed sizes and do not compare with a model after arbitrary histories.",
     ["include/common/GPtrVectorT.hpp", "include/common/GPODVectorT.hpp", "include/common/GStdPtrVectorInterfaceT.hpp"], [("wrapped std::vector of shared pointers", "include/common/GPtrVectorT.hpp")], ["content after each operation"])
prop("C08", "Random numbers have the requested distribution and are never shared",
     "Numbers drawn through the random number interface stay inside the support of the requested distribution and follow it, for all distributions and parameters offered. Numbers come from the random number factory without the same package ever being handed to two users, for any number of consumers, producers and re-configurations, and drawing never blocks forever.",
     ["inputs", "schedules", "configurations"], "all distribution parameters, numbers of concurrent consumers and producer threads",
     "Tests draw a few numbers and check that calls do not throw; they neither test ranges for arbitrary parameters nor duplication between threads.",
     ["include/hap/GRandomT.hpp", "include/hap/GRandomFactory.hpp", "src/hap/GRandomFactory.cpp", "include/hap/GRandomDistributionsT.hpp"], [("package buffer of the factory", "src/hap/GRandomFactory.cpp")], ["numbers drawn"])
# ---------------------------------------------------------------- geneva: objects
prop("C09", "Serialisation round-trips every object in every format",
     "Every parameter object, adaptor, individual and optimisation algorithm, with whatever content, that is written to a string, stream or file in the text, XML or binary format and read back is equal to the original in everything the library's own comparison looks at, and in everything observable: parameter values and boundaries, adaption settings, evaluation state and fitness, constraints, and algorithm settings. Writing the restored object gives an equal object again.",
     ["inputs"], "all object trees, contents and serialisation formats",
     "Tests serialise each class with one or two fixed contents.",
     ["include/common/GCommonInterfaceT.hpp", "include/geneva/GObject.hpp", "include/geneva/GParameterSet.hpp", "include/courtier/GProcessingContainerT.hpp"], [("serialize() members", "include/geneva/*.hpp")], ["toString/fromString, toFile/fromFile"])
prop("C10", "Clone, load and compare agree for every object",
     "A clone of any object, and any object into which another was loaded, compares equal to its source, and the two are independent: changing one never changes the other. Comparison detects every difference in an observable setting or value between two objects: two objects are reported equal only if all their observable values and settings are (the evaluation state of an individual, which is no setting, is copied but not compared).",
     ["inputs", "histories"], "all object trees and all single or multiple changes applied to one of two equal objects",
     "Tests compare objects after one fixed modification per class.",
     ["include/common/GCommonInterfaceT.hpp", "src/geneva/*.cpp"], [("load_(), clone_(), compare_()", "src/geneva/*.cpp")], ["clone()", "load()", "operator=="])
prop("C11", "Bounded parameters never leave their value range",
     "A parameter with boundaries delivers, after any history of assignment, adaption, arithmetic, random initialisation and boundary changes, only values inside its current boundaries; a value assigned from inside the range is delivered unchanged, and an assignment outside the range, or boundaries excluding the value or inverted, is refused without changing the parameter. Values that an operation moves across a boundary are folded back into the range by reflection, so that small changes stay small.",
     ["histories", "inputs"], "all boundaries, values and sequences of operations, for single parameters, collections and integers",
     "Tests use a few boundaries and random adaption only.",
     ["include/geneva/GConstrainedFPT.hpp", "include/geneva/GConstrainedIntT.hpp", "include/geneva/GConstrainedFPNumCollectionT.hpp", "include/geneva/GConstrainedNumT.hpp"], [("transfer()", "include/geneva/GConstrainedFPT.hpp")], ["value()", "operator=", "setValue", "setBoundaries", "adapt()"])
prop("C12", "Adaptors change values as configured and stay within their own limits",
     "An adaptor changes a value with its configured probability (always at 1), never when the parameter is inactive or the adaption mode forbids it and always when that mode demands it, and reports the number of changes it made truthfully; its probability, step sizes and their adaption always remain within the configured limits whatever number of adaptions was made, and integer and boolean adaptors produce the kind of change they are documented to produce. Invalid settings are refused.",
     ["histories", "configurations"], "all settings of the adaptors and any number of adaptions",
     "Tests check the setters and that something changed after many adaptions.",
     ["include/geneva/GAdaptorT.hpp", "include/geneva/GNumGaussAdaptorT.hpp", "include/geneva/GNumBiGaussAdaptorT.hpp", "include/geneva/GIntFlipAdaptorT.hpp", "include/geneva/GBooleanAdaptor.hpp"], [("adapt(), adaptAdaption()", "include/geneva/GAdaptorT.hpp")], ["adapt()", "getters"])
prop("C13", "Reading out and writing back all parameters of an individual is lossless",
     "The parameters of an individual, however nested, can be read out as a flat list and as a named map, counted, and written back: the three views agree in number, order and value for each parameter type and each choice of active, inactive or all parameters, and so do the boundaries. Writing back what was read changes nothing, writing other admissible values makes exactly these values readable, and lists of a wrong length are refused.",
     ["inputs"], "all parameter trees, activity patterns and value lists",
     "Tests use a fixed individual with a flat parameter structure.",
     ["include/geneva/GParameterBase.hpp", "include/geneva/GParameterTCollectionT.hpp", "include/geneva/GParameterCollectionT.hpp", "include/geneva/GParameterSet.hpp"], [("streamline/assignValueVector/countParameters/boundaries", "include/geneva/GParameterBase.hpp")], ["the views of a parameter set"])
prop("C14", "Initialisation and bulk operations respect limits and inactive parameters",
     "Random initialisation gives every parameter a value inside its initialisation boundaries (and inside its value range, where it has one); initialisation, adaption and the bulk operations on individuals (fixed values, scaling, adding and subtracting another individual) change exactly the parameters selected by the chosen mode and leave all others untouched. Parameters marked inactive are never altered by adaption.",
     ["inputs", "histories"], "all parameter trees, activity patterns, boundaries and operations",
     "Tests use fixed objects, and do not look at which of several nested parameters changed.",
     ["include/geneva/GParameterBase.hpp", "include/geneva/GParameterT.hpp", "include/geneva/GParameterCollectionT.hpp", "src/geneva/GParameterSet.cpp"], [("activityMode dispatch", "include/geneva/GParameterBase.hpp")], ["parameter values before and after"])
prop("C15", "Cross-over exchanges parameters and invents none",
     "Crossing over two individuals yields a new individual of the same structure in which, for every type of parameter, all positions before some cut hold the values of the first parent and all positions from the cut on hold those of the second, so that no value is invented, lost or moved to another position. Both parents stay as they were, the child needs evaluation, and it works for any number of parameters of each type, including none and one.",
     ["inputs"], "all pairs of individuals of the same structure and all outcomes of the random choice",
     "No test calls the cross-over of parameter sets on arbitrary structures.",
     ["src/geneva/GParameterSet.cpp", "include/geneva/GParameterSet.hpp"], [("crossOverWith", "src/geneva/GParameterSet.cpp")], ["parameter values after the call"])
prop("C16", "A fitness is only available for the parameters it was computed from",
     "The evaluation state of an individual and its parameters never disagree: a readable fitness is the one the evaluation function yields for the current parameters, asking an individual that was changed or never evaluated for its fitness is an error, and every change of a parameter through the individual's interface makes it unevaluated again. Raw and transformed results, multiple criteria and the direction (minimise or maximise) are reported consistently, and a failing evaluation leaves a recognisable error state.",
     ["histories"], "all sequences of change, evaluation, failing evaluation, copy and query",
     "Tests evaluate an individual once and do not interleave changes, failures and queries.",
     ["src/geneva/GParameterSet.cpp", "include/courtier/GProcessingContainerT.hpp"], [("processing status", "include/courtier/GProcessingContainerT.hpp")], ["raw_fitness, transformed_fitness, getProcessingStatus"])
prop("C17", "Constraint violations are judged and penalised as configured",
     "The validity of an individual reported for any combination of constraint checks is the documented combination of the individual checks, and an individual is valid exactly if its validity level does not exceed one. Invalid individuals receive the fitness prescribed by the chosen policy and never a better one than the policy allows, valid individuals always keep the fitness of the evaluation function, and an invalid individual is never preferred over a valid one where the policy rules that out.",
     ["inputs", "configurations"], "all constraint combinations, validity levels, policies, directions and numbers of criteria",
     "Tests register one constraint and check one outcome.",
     ["src/geneva/GParameterSetMultiConstraint.cpp", "src/geneva/GIndividualMultiConstraint.cpp", "include/geneva/GIndividualMultiConstraint.hpp", "src/geneva/GParameterSet.cpp"], [("check combiners, evaluation policies", "src/geneva/GIndividualMultiConstraint.cpp")], ["check()", "isValid()", "fitness"])
# ---------------------------------------------------------------- courtier
prop("C18", "Distributed evaluation returns every work item once with its own result",
     "Submitting any batch of work items for evaluation, through the serial, the multi-threaded or the brokered path with any number of workers, returns every item exactly once to its submitter and in its place, with the result that processing it directly gives; items that need no work are left alone, and items whose evaluation fails are reported as failed without affecting the others. Any number of batches can be submitted one after the other, and the reported counts and status agree with what happened.",
     ["schedules", "inputs", "fault_sequences"], "all batch sizes, worker counts, processing times, mixes of states, failing items and numbers of rounds",
     "Tests only run a fixed benchmark-like program with well-behaved items.",
     ["include/courtier/GExecutorT.hpp", "include/courtier/GBrokerT.hpp", "include/courtier/GStdThreadConsumerT.hpp", "include/courtier/GWorkerT.hpp"], [("workOn(), buffer ports, iteration counters", "include/courtier/GExecutorT.hpp")], ["the returned work items", "executor status"])
prop("C19", "Concurrent submitters share a broker without mixing up their work",
     "Several submitters using the same broker at the same time each get back all of their own items, only their own, and in order, whatever the number of workers and the arrival and departure of submitters; a submitter that goes away with work outstanding neither blocks nor takes down the others. No work item is processed by two workers at the same time.",
     ["schedules", "histories", "fault_sequences"], "all numbers of submitters and workers, item mixes and departure times",
     "Tests connect one submitter at a time and never remove one with work outstanding.",
     ["include/courtier/GBrokerT.hpp", "include/courtier/GBufferPortT.hpp", "include/courtier/GExecutorT.hpp"], [("buffer port ids", "include/courtier/GBrokerT.hpp")], ["the items returned to each submitter"])
prop("C20", "Late and lost work items are accounted for and never duplicated",
     "When workers are slow or lose work, a submission ends after its time-out or the configured number of resubmissions, an item is never returned twice to the batch it belongs to, and every item of the batch is either returned complete or reported as incomplete. Late items are delivered separately as results of the earlier batch, and partial returns are accepted as configured.",
     ["fault_sequences", "schedules"], "all sequences of delays and losses and all time-out, resubmission and partial return settings",
     "No test delays or loses a work item.",
     ["include/courtier/GExecutorT.hpp"], [("waitForReturn, resubmission, old items", "include/courtier/GExecutorT.hpp")], ["executor status", "old work items", "returned items"])
prop("C21", "Networked evaluation survives any client behaviour",
     "A server that distributes work over the network keeps running and keeps serving its other clients whenever a client disconnects, stalls, sends bytes that are no message, cut-off or out-of-place messages, or results that are unprocessed, repeated or do not belong to the current work. Work evaluated by clients comes back with the same results as local evaluation, items whose evaluation fails come back as failed, and work handed to a client that disappears is not reported as finished but can be done by others. Well-behaved clients stay available until their limit is reached or the server ends, and then end in order; a server can be started again on its port at once and can always be shut down.",
     ["fault_sequences", "inputs", "schedules"], "all kinds of misbehaviour of clients, disconnect points, numbers of clients, limits, serialisation modes",
     "Tests run a well-behaved client and server; no test sends malformed data or breaks a connection.",
     ["include/courtier/GAsioConsumerT.hpp", "include/courtier/GWebsocketConsumerT.hpp", "include/courtier/GBaseClientT.hpp"], [("session classes", "include/courtier/GAsioConsumerT.hpp")], ["server process", "work items returned"])
prop("C22", "Messages between server and clients round-trip or are rejected cleanly",
     "A message with any command and any or no work item, encoded in any of the supported formats and decoded again, carries the same command and an equal work item. A message that was cut off at any place, is in another format than expected or is no message at all is rejected with an error (unless only redundant bytes at its end are missing); it never crashes the process, and decoding replaces whatever the receiving message object held before.",
     ["inputs"], "all messages, formats and places to cut them off; byte sequences that are no message",
     "Tests do not decode incomplete messages, and only use a few messages and formats.",
     ["include/courtier/GCommandContainerT.hpp"], [("container_to_string, container_from_string", "include/courtier/GCommandContainerT.hpp")], ["decoded message", "exceptions"])
# ---------------------------------------------------------------- algorithms
prop("C23", "Evolutionary selection keeps exactly the best according to its scheme",
     "After each iteration of an evolutionary algorithm the configured number of parents precedes the children, and the parents are exactly the best individuals of the set the sorting scheme selects from: parents and children, children only, or children plus the best parent, with multi-criterion selection keeping the non-dominated individuals. In the schemes that include parents the best fitness never gets worse, and the population keeps its configured size.",
     ["histories", "configurations"], "all population sizes, schemes, fitness landscapes (including ties), directions and numbers of iterations",
     "No unit test runs an algorithm and inspects its selection.",
     ["src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp", "src/geneva/G_OptimizationAlgorithm_ParChild.cpp"], [("sort...Mode functions", "src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp")], ["population after each iteration"])
prop("C24", "Swarms remember personal, neighbourhood and global bests correctly",
     "In a swarm the remembered personal best of every particle is the best position that particle has had, the best of a neighbourhood is the best of its members and the global best is the best of all; none of them ever gets worse. The number and size of neighbourhoods stays as configured, and all positions respect the parameters' boundaries.",
     ["histories", "configurations"], "all numbers and sizes of neighbourhoods, landscapes, directions and numbers of iterations",
     "No unit test runs a swarm and inspects its memory.",
     ["src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp", "src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.cpp"], [("updatePersonalBest..., findBests", "src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp")], ["particles' traits and positions after each iteration"])
prop("C25", "Simulated annealing accepts and cools as specified",
     "In simulated annealing a better child always replaces its parent, a worse child does so only with the probability given by the current temperature, and the temperature falls geometrically from its start value by the configured factor in every iteration. At a temperature near zero the search never gets worse, population sizes stay as configured, and invalid temperatures or factors are refused.",
     ["histories", "configurations"], "all temperatures, cooling factors, population sizes, landscapes and directions",
     "No unit test runs simulated annealing and inspects acceptance.",
     ["src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp"], [("sortSAMode, updateTemperature", "src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp")], ["population and temperature after each iteration"])
prop("C26", "Gradient descent follows the finite-difference gradient",
     "Each step of the gradient descent moves every starting point by the configured step along the negative (or, when maximising, positive) direction of the finite-difference gradient at that point, for every dimension and any number of starting points, and stays within the parameters' boundaries. Invalid step sizes are refused and valid ones are used.",
     ["inputs", "configurations"], "all differentiable test functions, dimensions, step sizes, numbers of starting points",
     "No unit test runs the gradient descent.",
     ["src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp"], [("updateChildParameters, updateParentIndividuals", "src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp")], ["starting points after each iteration"])
prop("C27", "A parameter scan visits every grid point exactly once",
     "A parameter scan evaluates every combination of the requested values of the requested parameters (floating point, integer and boolean, addressed by position, name or name and index) exactly once, includes both ends of each range, leaves all other parameters alone, then stops, and reports the best point of the grid. A random scan evaluates exactly the requested number of points, all inside the ranges.",
     ["inputs", "configurations"], "all scan specifications, population sizes and parameter structures",
     "No unit test runs a scan.",
     ["src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp", "include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp", "src/geneva/GParameterPropertyParser.cpp"], [("switchToNextParameterSet", "src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp")], ["evaluated parameter sets"])
prop("C28", "Optimisation stops exactly when a stop criterion is met",
     "An optimisation run ends after the first iteration in which one of the configured criteria (number of iterations, stalls, fitness threshold, time, custom condition, request file) is met, but not before the configured minimum, and not otherwise; its iteration and stall counters count iterations and iterations without improvement. A criterion that is switched off never ends the run, and the notifications at start, each reported iteration and end come exactly once each.",
     ["histories", "configurations"], "all combinations of stop criteria, report intervals, offsets and fitness histories, for all algorithms",
     "No unit test checks when an optimisation run ends.",
     ["src/geneva/G_OptimizationAlgorithm_Base.cpp"], [("halt(), optimize()", "src/geneva/G_OptimizationAlgorithm_Base.cpp")], ["getIteration, getStallCounter, monitor calls"])
prop("C29", "A checkpoint restores the optimisation completely",
     "Loading a checkpoint into an algorithm restores the state at the time of saving: population, parameters, best solutions, counters and settings are equal to the saved ones, and a continued run proceeds from there without losing the best solution. Checkpoints are written at the configured intervals under the configured names; damaged or missing checkpoint files, or those of another algorithm, are reported as errors.",
     ["crash_points", "histories", "configurations"], "all algorithms, iterations of interruption, checkpoint settings and serialisation modes, truncations of the file",
     "No unit test saves or loads a checkpoint.",
     ["src/geneva/G_OptimizationAlgorithm_Base.cpp", "src/geneva/Go2.cpp"], [("checkpoint, saveCheckpoint, loadCheckpoint", "src/geneva/G_OptimizationAlgorithm_Base.cpp")], ["checkpoint files", "state after loading"])
prop("C30", "The best solutions reported are the best ever evaluated",
     "The best individuals an optimisation reports are the best it evaluated in the course of the run (globally) and in the last iteration, as many as requested, sorted, valid and with the fitness their parameters evaluate to; maximising a function is the mirror image of minimising its negative. The best known fitness never gets worse from one iteration to the next.",
     ["histories", "configurations"], "all algorithms, landscapes, directions, numbers of recorded individuals and numbers of iterations",
     "No unit test compares reported best solutions with what was evaluated.",
     ["src/geneva/G_OptimizationAlgorithm_Base.cpp", "src/geneva/GParameterSetFixedSizePriorityQueue.cpp"], [("updateGlobalBestsPQ, getBestGlobalIndividual(s)", "src/geneva/G_OptimizationAlgorithm_Base.cpp")], ["reported individuals, all evaluations"])
prop("C31", "Chained optimisation hands the best solutions on",
     "Running several optimisation algorithms in a row executes each of them in the given order, starts each with the best individuals of its predecessor, counts iterations through, and reports at the end the best individuals of all stages. The best fitness never gets worse from one stage to the next, and user-supplied start individuals take part in the first stage.",
     ["configurations", "histories"], "all chains of algorithms, start populations and settings",
     "No unit test runs a chain.",
     ["src/geneva/Go2.cpp", "include/geneva/Go2.hpp"], [("runOptimizationAlgorithms", "src/geneva/Go2.cpp")], ["reported best individuals, evaluations of each stage"])
prop("C32", "Results do not depend on how the work is distributed",
     "An optimisation whose course does not depend on random numbers gives the same sequence of populations and the same result whether work items are evaluated serially, by threads or through the broker, and with any number of workers. The same holds for the evaluation of a given population by any of these.",
     ["schedules", "configurations"], "all execution modes, worker counts and deterministic algorithms",
     "No unit test compares execution modes.",
     ["include/courtier/GExecutorT.hpp", "src/geneva/G_OptimizationAlgorithm_Base.cpp"], [("executors", "include/courtier/GExecutorT.hpp")], ["populations after each iteration"])
prop("C33", "Algorithms are configured exactly as their files and the command line say",
     "The factory of every optimisation algorithm delivers algorithms with the values given in its configuration file, in whatever order and combination they appear, and with the documented defaults for all others; a default file that was created automatically means the same as no file. Limits on the command line take precedence. An algorithm obtained in this way behaves accordingly: it has the population given, made by the content creator, does the number of iterations given, uses the default executor given and, for scans, visits the points given. The list of algorithms on the command line of Go2 is executed in its order; unknown names are refused.",
     ["configurations"], "all subsets, orders and values of options of all algorithms, all lists of algorithms",
     "The tests configure algorithms through their API.",
     ["include/geneva/G_OptimizationAlgorithm_FactoryT.hpp", "src/geneva/G_OptimizationAlgorithm_Base.cpp", "src/geneva/Go2.cpp"], [("addConfigurationOptions_", "src/geneva/G_OptimizationAlgorithm_Base.cpp"), ("parseCommandLine", "src/geneva/Go2.cpp")], ["settings and course of the optimisation"])
prop("C34", "Monitors record exactly what happened in a run",
     "Whatever algorithm runs, and however monitors are registered (alone or inside of nested collective monitors, as copies, one or many, for one or several runs), each monitor writes what the algorithm's population and its bests were when it was called: the log of all solutions has its header once and then one line per individual that passes the boundaries, with its parameters, the raw or transformed fitness that was asked for and its validity; the log of iteration results has one line per reported iteration; the numbers of adaptions, adaptor properties, processing times (text and histograms), progress points (best only, valid only, inside of the boundaries only) and the fitness of the best individuals appear once, in the iteration they belong to, with nothing lost and nothing of another run; existing log files are moved away. Monitors do not stop a run.",
     ["inputs", "histories"], "all algorithms, problems, monitors, their settings and the numbers of iterations and runs", "The tests only compare monitors as objects; nothing reads the files.",
     ["src/geneva/GPluggableOptimizationMonitors.cpp", "include/geneva/GPluggableOptimizationMonitors.hpp"], [("GAllSolutionFileLogger", "src/geneva/GPluggableOptimizationMonitors.cpp"), ("GAdaptorPropertyLoggerT", "include/geneva/GPluggableOptimizationMonitors.hpp")], ["files written by monitors during a run"])
prop("C35", "Plot files show exactly the data which were added",
     "The text produced by GPlotDesigner contains, for every registered plotter that has a pad, and for its secondary plotters, exactly the points which were added, in the right order (sorted where this was asked for, the best ones only where this was asked for), arrays of the matching size, the ranges and bins of histograms as they were given or as they follow from the data, the functions and their ranges, and labels. Names of objects are unique, every pad is used once, no value is written that is not a number, and plotters without data or with a single point are no error. Copies of a designer produce the same text and do not change with the original; projections contain one entry for every point.",
     ["inputs"], "all kinds, numbers and data of plotters", "The tests create a few plots and do not look at their text.",
     ["src/common/GPlotDesigner.cpp", "include/common/GPlotDesigner.hpp"], [("GPlotDesigner::plot", "src/common/GPlotDesigner.cpp"), ("projectX", "include/common/GPlotDesigner.hpp")], ["text of the plot file"])
prop("C36", "External programs are evaluated faithfully",
     "An individual that is evaluated by an external program hands exactly its parameters, its id, the run id and the number of results to the program, and takes over exactly the results which the program delivered, for any parameter structure, number of results and exchange of individuals as copies, through streams or in batches. A program that is missing, fails, is killed or delivers an invalid, incomplete, foreign or no result leads to an error of this individual, never to a made-up fitness; the program is asked for start values, initialised and finalised as configured, and temporary files are removed.",
     ["inputs", "faults"], "all parameter structures, results, copies and failures of the program", "No unit test evaluates an individual with an external program.",
     ["src/geneva-individuals/GExternalEvaluatorIndividual.cpp", "include/geneva-individuals/GExternalEvaluatorIndividual.hpp"], [("fitnessCalculation, archive", "src/geneva-individuals/GExternalEvaluatorIndividual.cpp")], ["requests the program received, fitness of the individuals, files left behind"])
prop("C37", "A failing evaluation never spoils an optimisation",
     "When evaluations fail in the course of an optimisation (by an exception of any type or a flagged error, in any individual and iteration, evaluated serially or by threads), evolutionary algorithms, simulated annealing and swarms go on as long as something could be evaluated: the population keeps its size, individuals with errors are removed from it, every fitness is that of its individual's parameters, and the best solution is the best of the successful evaluations. Where an algorithm cannot go on it ends with an exception, and failures do not affect a later optimisation with the same object.",
     ["faults", "histories", "schedules"], "all algorithms, population sizes, rates, kinds and points in time of failures", "No unit test lets an evaluation fail within an optimisation.",
     ["src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp", "src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp", "src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp", "include/courtier/GProcessingContainerT.hpp"], [("runFitnessCalculation_, adjustNeighborhoods", "src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp"), ("runFitnessCalculation_", "src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp")], ["population and bests after each iteration, exceptions"])
prop("C38", "Children descend from the parents as configured",
     "In evolutionary algorithms and simulated annealing every child is an adapted copy of one of the current parents or, with the configured likelihood, of an amalgamation of the best parent with another one (a front part of the best parent's values of each type, the rest from the other, all cuts and partners being equally likely). Copied parents are chosen uniformly or, in the value scheme after the first iteration, with a weight of 1/(rank+2). Each child is adapted exactly once, the number of children follows the configured sizes and growth, and a copied child knows its parent.",
     ["inputs", "histories"], "all numbers of parents, schemes, likelihoods, genotypes, growth rates and iterations", "Unit tests do not look at the choice of parents.",
     ["src/geneva/G_OptimizationAlgorithm_ParChild.cpp", "src/geneva/GParameterSet.cpp"], [("doRecombine, randomRecombine, valueRecombine", "src/geneva/G_OptimizationAlgorithm_ParChild.cpp"), ("crossOverWith", "src/geneva/GParameterSet.cpp")], ["parameters of the evaluated children compared with the parents of the iteration"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
