#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = "deterministic simulation with fault injection"
NOTE = {
 "C01": ("element-operation panics", "seeded histories of matrix operations over an element type with a ledger of live values, every step repeated with one or two element operations told to panic, on a simulated heap; oracle: dense model, ledger and heap guards. A sample of histories and panic points, not all of them."),
 "C02": ("histories through views", "seeded histories of in-place operations through nested sub-matrix and transposed views, rejected requests and element panics between them, on a simulated heap; oracle: dense array after every step. A sample of histories."),
 "C08": ("delivery orders, failing and retried attachments", "seeded delivery orders of simplices over several label types and several interleaved complexes, malformed simplices and label operations told to panic, attempts dropped or retried, closed standard output; oracle: closure model with an independent integer diagonalisation for homology. A sample of deliveries."),
 "C09": ("histories with rejected and interrupted operations", "seeded histories of pool and labelled-set operations with rejected requests and label comparisons told to panic; oracle: set model after every step. A sample of histories."),
 "C10": ("edit, action and undo histories", "seeded histories of graph edits, swaps, permutation actions and undo steps, rejected requests included; oracle: adjacency-set model after every step. A sample of histories."),
 "C07": ("hash keys and map histories", "seeded labelled graphs, subdivision counts and hash maps with varied keys, capacities, insertion orders and earlier removals; oracle: subdivision model and the exact fractional positions. A sample of graphs and maps."),
 "C12": ("caller-function histories with panics", "seeded caller functions (also ones whose answers depend on how often they were asked, or that panic) and histories of sparse operations, with element-operation panics and a ledger of live values; oracle: dense model. A sample of histories."),
 "C13": ("arrival orders, groupings and failing terms", "seeded arrival orders, groupings and interleavings of terms, iterators that are abandoned or panic, element-operation panics and a ledger; oracle: map from basis element to coefficient. A sample of histories."),
 "C14": ("builder callbacks that panic and are retried", "seeded callback expressions, components left unset, functions built inside a callback, callbacks told to panic before, between and after their assignments and builds retried; oracle: value and gradient of the expression with a running error bound, plus bit-identical repeated evaluation. A sample of expressions and panic points."),
 "C15": ("interleaved and abandoned iterators", "seeded interleavings of several iterators over shared objects (pools, labelled sets, tuples, sparse rows and columns, permutations, graphs, Morse cells, formal sums), abandoned, re-opened, left by a panic of the caller's function, on one thread or several simulated ones; oracle: the list of elements each must yield. A sample of objects and interleavings."),
 "C05": ("sinks, streams and labels that fail", "seeded objects of every type with a rendering, rendered to sinks that refuse at a drawn byte, take part of a write, fail once and recover, panic or re-enter the rendering, to io streams with short writes, interruptions and no space, and with the label's or element's own rendering failing or panicking; oracle: the undisturbed text, prefixes of it, and the error reaching the caller exactly when something failed. A sample of objects, formats and failure places; that the undisturbed text is the right one is judged only where other properties read it (C08, C10, C16)."),
 "C06": ("adversarial random streams and panicking draws", "seeded sizes and element types for the five random generators under random streams with stretches of zeros, ones, alternating, repeating, tiny, constant and extreme words, with element operations and draws told to panic, each call repeated with the same stream; oracle: size, symmetry, entries being images of distinct delivered words, orthonormality within 1e-9, a bound on the words drawn after the adversarial stretch, a ledger of elements. A sample of streams; the distribution of the results is not judged."),
 "C03": ("environments and histories compared across fresh processes", "seeded lists of calls from a catalogue of some 80 computations over all five crates, made in a fresh process in one environment (content, placement and re-use of heap memory, hash keys, clock) and again in another environment and order, with repeated calls and calls cut short by a panic in between; oracle: the other process's results, bit by bit. A sample of lists and environments."),
 "C04": ("refused allocations", "seeded calls from the same catalogue, each repeated in fresh processes with drawn allocation requests refused (one, or all from some point on), and requests for matrices of extreme sizes; oracle: the process stops through the allocation-failure path, or the call panics or gives the undisturbed result, and a repetition after it gives the undisturbed result; heap guards. A sample of calls and requests."),
 "C11": ("seeded thread schedules", "2 to 4 real threads under a scheduler that decides at every control-flow edge, allocation, draw and blocking point of the code under test who runs, with calls from the same catalogue and looks at shared objects; oracle: each thread's results in a fresh process of its own, call by call. A sample of calls and schedules; switches happen between control-flow edges, not between single memory accesses, and memory is sequentially consistent."),
 "C17": ("repeated and interrupted calls on a counting heap", "seeded calls from the same catalogue, each repeated in a fresh process in full and cut short at drawn element operations and callbacks; oracle: blocks and bytes in use on the simulated heap do not grow from the second to the last repetition. A sample of calls and interruption points."),
 "C18": ("interleaved histories of many values", "seeded histories of makings, clones, derived values, changes, readings and releases over up to 12 values of 27 types, element operations and callbacks panicking inside clones, changes and readings; oracle: after every step every other value shows what it showed, a clone shows what its original shows, and at the end each value is made again by its own steps alone and must show and answer the same. A sample of histories."),
 "C19": ("simulated points on a graph", "a seeded scheduler moves 1 to 4 points on a graph of 3 to 9 vertices, several at a time, with stalls, returns, moves delivered one by one and motions broken off and undone; the recorded motions are composed, inverted, reduced and evaluated in drawn order; oracle: every result is walked point by point on the graph and compared with a model of motions up to cancelling and exchanging moves. A sample of schedules and histories."),
 "C16": ("shuffled deliveries and interleaved stages", "seeded deliveries of the edges of graphs (order, ends, labels) to several computations whose stages interleave, with rejected graphs in between; oracle: the unordered discrete configuration space built and diagonalised independently, boundary maps composing to zero, and motions followed step by step. A sample of graphs, 1 to 4 points."),
}
PURE = {
 "C20": "A pure function of one matrix: no schedule, clock, fault or history in it. Its dependence on memory, hash seeds, interruption and concurrent callers is decided under C01, C03, C04 and C11.",
 "C21": "Floating-point factorisations are pure functions of one matrix; whether they are accurate is a numerical question no schedule or fault enters.",
 "C22": "Group laws of permutations are pure functions of their arguments.",
 "C23": "Rational arithmetic laws are pure functions of their arguments.",
 "C24": "Number-theoretic functions of one or two integers: pure.",
 "C25": "Derivatives and simplification are pure functions of one expression; the part that depends on caller-supplied callbacks is C14.",
 "C26": "Triangulation of a given point set is a pure function; its independence of hash seeds, memory and history is part of C03.",
 "C27": "Constant-size matrices are pure value types without heap, callbacks or history.",
}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTE:
        what, note = NOTE[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh check {i}", "thorough_cmd": f"./check.sh check {i} thorough",
                       "technique": f"{T} ({what})", "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": PURE.get(i, "The simulation for this property is not built yet.")})
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seams (global allocator, random source, hash keys, standard output, caller-supplied types and callbacks, thread scheduling at control-flow edges) are all outside the crate. Replay: ./check.sh replay FILE."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
