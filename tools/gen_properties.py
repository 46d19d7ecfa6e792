#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts live)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

LA = "alg/src/lin_alg.rs"; MI = "alg/src/lin_alg/matrix_impl.rs"; SM = "alg/src/lin_alg/sparse_matrix_impl.rs"

prop("C01", "Matrix elements are owned exactly once, even when an operation is cut short",
     "For any element type, every element value a matrix is given or creates is destroyed exactly once, and no element is read or destroyed at a place where none was stored. This holds for every construction, arithmetic, view, in-place, random-fill and comparison operation, and also when any one of the element type's own operations panics part-way through. An operation that does complete returns the value the entry-wise definition gives.",
     ["crash_points", "histories"],
     "every history of matrix operations and every point inside an operation at which the element type's clone, arithmetic, comparison, zero/one or random draw may panic",
     "the tests only use Copy number types, for which reading, overwriting or forgetting uninitialised elements has no visible effect, and never interrupt an operation",
     [MI, LA], [("raw buffer allocation and deallocation", MI + ": Matrix::new, Drop"), ("entry-wise writes into a fresh buffer", MI + ": add/sub/mul/div/from_array/random"), ("Clone / into_iter of the raw buffer", MI)],
     [("element buffer", "raw allocation of n*m elements addressed by a NonNull pointer", LA + ": struct Matrix")])

prop("C02", "In-place work through views changes exactly the addressed entries",
     "After any history of in-place operations (writes, row/column swaps, row/column additions, block writes, scaling, element-wise assignment) performed through arbitrarily nested sub-matrix and transposed views, the matrix equals a dense array to which the same operations were applied, and every view reads exactly the entries its range addresses. An operation that is rejected because an index, range or shape does not fit changes nothing, and a rejected request is always rejected rather than resolved to some other place. If an element operation panics part-way, entries outside the region the operation addresses keep their values.",
     ["histories", "fault_sequences"],
     "every history of view creations and in-place operations, every rejected request in between, every element-operation failure inside one, and every matrix dimension including ones beyond the view encoding",
     "tests use a handful of small fixed matrices, one level of view, and check few rejected requests and none of the state after them",
     [MI, LA], [("size and offset packed into the slice length of a view", MI + ": compress/extract"), ("range checks", MI + ": check_bounds_for_sub, check_bounds_for_index"), ("in-place row/column operations", MI + ": swap_rows .. write_and_move")])

prop("C03", "Results do not depend on memory contents, addresses, hash seeds or history",
     "Every computation of the library (linear algebra, permutations, simplicial and cubical complexes, graphs, formal sums, symbolic functions, triangulation) gives the same result, or fails in the same way, for the same arguments: whatever fresh heap memory happens to contain, wherever allocations are placed or re-used, whatever keys the process's hash maps use, and whatever was computed before in the process.",
     ["inputs", "configurations", "histories"],
     "every argument, every content and placement of freshly allocated or re-used memory, every hash-map key, every sequence of earlier calls",
     "a test runs once, in one memory layout, with mostly zero pages and one hash seed; a read of uninitialised memory or a dependence on an address looks right there",
     [MI, "topo_spaces/src/graph.rs", "topo_spaces/src/cubical.rs", "topo_spaces/src/simplicial/mod_impl.rs", "geom/src/lib.rs", "analysis/src/lib.rs", "util/src/lib.rs"],
     [("uninitialised buffer then filled", MI + ": Matrix::new"), ("hash maps in embeddings", "topo_spaces/src/graph.rs: modify_embedding"), ("raw-bit pools", "util/src/lib.rs: BinaryPool")])

prop("C04", "Running out of memory never corrupts: it fails cleanly",
     "When the allocator refuses any one request made during any computation of the library, the process stops through Rust's allocation-failure path or the call panics; it never touches invalid memory and never goes on to return a wrong result. A matrix whose requested size cannot be represented is refused instead of being built smaller than asked.",
     ["fault_sequences", "inputs"],
     "every allocation request a computation makes, refused one at a time or from some point on, and every requested matrix size",
     "no test makes an allocation fail or asks for a size that overflows",
     [MI, LA, "util/src/lib.rs"], [("raw allocation with null check", MI + ": Matrix::new"), ("layout size computation", MI + ": Layout::array")])

prop("C05", "Rendering to a failing sink reports the error and emits only a true prefix",
     "Every Display and Debug rendering the library provides, given a formatter that fails or stops accepting text at any point, returns the error to its caller without panicking; the text accepted until then is a prefix of the full text, and the value is unchanged so that rendering again to a working sink gives the full text. To a working sink the text is the same every time and however the sink splits it.",
     ["fault_sequences"],
     "every renderable value of every crate and every position at which the sink may fail",
     "tests only render into a String, which never fails",
     [LA, MI, SM, "alg/src/non_commutative/permutation.rs", "alg/src/commutative/rational_impl.rs", "topo_spaces/src/graph.rs", "topo_spaces/src/cubical.rs", "topo_spaces/src/lib.rs", "analysis/src/lib.rs", "util/src/lib.rs"],
     [("fmt implementations propagate write errors with ?", "all Display/Debug impls")])

prop("C06", "Random generators keep their structural promises for every random stream",
     "Whatever the random source delivers, a generated random matrix has the requested size and takes every entry from the source; a random symmetric (or sparse symmetric) matrix is symmetric; a random orthogonal matrix has orthonormal columns and a random unit vector has length one, with no NaN. A generator either keeps its promise or panics without returning a matrix; it ends once the source delivers ordinary words again, and the same stream gives the same matrix.",
     ["schedules", "fault_sequences"],
     "every sequence of words the random source may deliver, including constant, extreme and repeating ones, and every size",
     "tests draw from a real random generator, where degenerate draws have negligible probability, and are flaky",
     [MI], [("uniform draws", MI + ": random, random_symmetric, random_sparse_symmetric"), ("rejection of degenerate draws / normalisation", MI + ": random_orthogonal, random_unit_vec")])

prop("C07", "Embedding of a subdivided graph is independent of hash order",
     "For every labelled graph and every number of marked points, subdividing it gives a graph with the prescribed vertices (each original vertex once, each edge split evenly into the prescribed number of pieces) and the same connections, and transferring an embedding of the original vertices to it gives exactly one position per vertex: original vertices keep theirs and an inserted vertex lies at its own fraction along its edge. The result does not depend on the keys, capacity, insertion order or past removals of the hash map that carries the embedding.",
     ["schedules", "histories", "inputs"],
     "every graph, every hash-map key, insertion order and deletion history of the map handed in",
     "no test calls it; one run of a test would use one random hash key",
     ["topo_spaces/src/graph.rs"], [("subdivision", "topo_spaces/src/graph.rs: subdivided_graph_from"), ("modify_embedding", "topo_spaces/src/graph.rs: modify_embedding")])

prop("C08", "A simplicial complex converges however its simplices are delivered",
     "However a set of simplices is attached - in any order, repeatedly, faces before or after the cells they bound, several sources interleaved, attempts that fail because a label operation panics or because the simplex is malformed and that are retried or dropped - the complex ends up as the closure of the simplices that were accepted: same vertices, same cells in every dimension, same dimension, connectivity, boundary maps composing to zero and integral homology. A failed attempt leaves the complex in the state before it or after it, never in between.",
     ["schedules", "fault_sequences", "histories"],
     "every delivery order, duplication, interleaving and failure point, and any number of vertices",
     "tests attach a few fixed simplices once, in one order, with at most a few dozen vertices",
     ["topo_spaces/src/simplicial/mod_impl.rs", "topo_spaces/src/simplicial/mod.rs", "topo_spaces/src/lib.rs"],
     [("bit-vector cells", "topo_spaces/src/simplicial/mod_impl.rs: SimplicialCell"), ("attach keeps only maximal cells", "topo_spaces/src/simplicial/mod_impl.rs: attach"), ("boundary map and homology", "topo_spaces/src/lib.rs: IntegralHomology")])

prop("C09", "Pools and labelled sets stay equal to a set model through failing operations",
     "After any history of insertions, removals, set operations and iterations, including rejected ones (index out of range, absent element, wrong size) and ones cut short by a label comparison that panics, a binary pool and a labelled set contain exactly the elements a reference set would contain, iterate over them in increasing position order and report the right size. A rejected or interrupted operation leaves the set as it was before it or as it would be after it.",
     ["histories", "fault_sequences"],
     "every history of operations over every pool size, with rejected and interrupted operations anywhere",
     "tests run a few fixed operations on small pools and no rejected one in the middle",
     ["util/src/lib.rs"], [("64-bit word pool", "util/src/lib.rs: BinaryPool"), ("labels plus pool", "util/src/lib.rs: LabeledSet")])

prop("C10", "Graph edits and permutation actions behave like an adjacency model",
     "After any history of edge additions and removals, vertex swaps and permutation actions on a simple graph, rejected requests included, the graph has exactly the edges of an adjacency-set model with the same relabellings, and its degree, neighbour, edge, connectivity and rendering queries agree with that model. Acting with a product of permutations equals acting one after the other, and undoing every step restores the graph; the same holds for lists of arbitrary items, none of which is ever lost or duplicated.",
     ["histories", "fault_sequences"],
     "every history of edits, actions, undo steps and rejected requests on every graph and list",
     "tests apply a few fixed edits to a few fixed graphs",
     ["topo_spaces/src/graph.rs", "alg/src/non_commutative/permutation.rs", "alg/src/non_commutative.rs"],
     [("triangular adjacency bits", "topo_spaces/src/graph.rs: RawSimpleGraph::raw_idx"), ("group action through generators", "alg/src/non_commutative.rs: Gset::action_by"), ("in_terms_of_gens", "alg/src/non_commutative/permutation.rs")])

prop("C11", "Concurrent callers never influence each other",
     "When several threads compute with the library at the same time, on their own values or on values they share for reading, each thread gets, call by call, exactly the results (or failures) it would get running alone, under every interleaving, and every call finishes.",
     ["schedules"],
     "every interleaving of callers at their allocation, element-operation, random-draw and blocking points",
     "no test uses more than one thread on shared values; a test harness thread pool exercises an uncontrolled handful of interleavings",
     ["alg/src/lin_alg.rs", MI, "topo_spaces/src/graph.rs", "topo_spaces/src/cubical.rs", "topo_spaces/src/simplicial/mod_impl.rs", "analysis/src/lib.rs", "geom/src/lib.rs", "util/src/lib.rs"],
     [("absence of shared mutable state", "all crates"), ("read-only views over shared buffers", MI + ": SubMatrix")])

prop("C12", "A sparse matrix built from a caller's function equals its dense counterpart",
     "Building a sparse matrix from a caller's function asks for each position inside the given size exactly once and keeps exactly the answers that are present, even when the answers depend on how often the function has been asked; if the function panics the panic reaches the caller and every element value is still destroyed exactly once. Through any history of transposition, cloning, comparison, row and column iteration and products with sparse and dense matrices it equals the dense matrix with zeros at the absent positions, including empty rows, empty columns and the completely empty matrix.",
     ["crash_points", "histories", "inputs"],
     "every stateful or failing function, every sparsity pattern and every history of operations",
     "tests use a few fixed patterns, pure functions and never an empty matrix",
     [SM, LA], [("linked nodes shared by row and column lists", SM + ": From"), ("row/column iteration", SM + ": Iter")])

prop("C13", "Formal sums do not depend on the order or grouping in which terms arrive",
     "However the terms of a formal linear combination arrive - any order, grouped into any partial sums, through iterators that are interleaved, abandoned or panic - adding them gives the same combination: each basis element once, with the total of its coefficients, no zero coefficients, in increasing order of the basis. Subtraction, negation, scaling and coefficient lookup agree with that, and a failing coefficient or basis operation loses or duplicates no value.",
     ["schedules", "fault_sequences"],
     "every arrival order and grouping of every multiset of terms, and every failure point inside a summation",
     "tests add a few three-term sums in one order each",
     [LA], [("k-way merge of sorted terms", LA + ": Sum for Vector, Merge")])

prop("C14", "Functions are built from caller callbacks exactly once per component",
     "Building a multi-variable function or its parts from caller-supplied callbacks calls each callback as often as documented (once per component, in component order), and the resulting function evaluates to what the callback's expressions evaluate to, in every later call and after any other calls, and its Jacobian, itself built through a callback, holds each component's own partial derivatives. If a callback panics or a required part is missing, no half-built function is returned, the panic reaches the caller, and retrying with a working callback gives the same function as if nothing had happened.",
     ["fault_sequences", "histories"],
     "every callback, every component at which it fails, every history of builds and evaluations around it",
     "tests build a few fixed functions with callbacks that never fail or count",
     ["analysis/src/lib.rs"], [("builder closures", "analysis/src/lib.rs: AtomicSmoothFnBuilder, MultiVarFnBuilder")])

prop("C15", "Iterators over one object can be interleaved and abandoned freely",
     "Any number of iterators over one shared object (pools, labelled sets, tuples, sparse rows and columns, permutation indices, graph neighbours, edges, vertices and factors, factors of Morse cells, terms of formal sums), advanced in any interleaving and abandoned or restarted at any point, each yield exactly the elements the object contains in that iterator's order, stop, and stay stopped.",
     ["schedules"],
     "every interleaving of advances, restarts and abandonments of every number of iterators",
     "tests drain one iterator at a time",
     [MI, SM, "topo_spaces/src/graph.rs", "topo_spaces/src/cubical.rs", "alg/src/non_commutative/permutation.rs", "util/src/lib.rs"],
     [("hand-written iterator state machines", "the files listed")])

prop("C16", "Configuration-space homology does not depend on how the graph is delivered",
     "However the vertices and edges of a graph are delivered - in any order, with any labels, either end first - the discrete configuration space built from it has the same integral homology, equal to that of the full cubical complex of the same subdivided graph, its boundary maps compose to zero, and the cycles and boundaries it describes generate all of them. Interruptions between the stages (subdividing, choosing the maximal tree, building the Morse complex, computing homology) and computations for other graphs in between do not change it.",
     ["schedules", "inputs", "histories"],
     "every graph, every delivery order and labelling, every interleaving of several such computations",
     "tests compute a few fixed graphs delivered in one order",
     ["topo_spaces/src/cubical.rs", "topo_spaces/src/graph.rs", "topo_spaces/src/lib.rs", MI],
     [("maximal tree and vertex renumbering", "topo_spaces/src/graph.rs: choose_maximal_tree"), ("discrete gradient flow", "topo_spaces/src/cubical.rs: UdnMorseCplx"), ("Smith normal form", MI + ": smith_normal_form")])

prop("C17", "Every computation gives back the memory it took",
     "Every computation of the library gives back, once the values it returned have been dropped, all the heap memory it requested: whether it ended well, refused its arguments, or was cut short by a panic of the caller's element type, label or callback. Repeating any call, finished or cut short, any number of times does not make the memory in use grow.",
     ["crash_points", "histories", "inputs"],
     "every call, every point at which caller-supplied code inside it may panic, any number of repetitions",
     "tests never look at the memory in use and never interrupt a call",
     [LA, MI, SM, "topo_spaces/src/graph.rs", "topo_spaces/src/cubical.rs", "topo_spaces/src/simplicial/mod_impl.rs", "analysis/src/lib.rs", "util/src/lib.rs"],
     [("raw buffer released by hand", MI + ": Drop for Matrix, into_iter, write_and_move"), ("reference-counted nodes and their iterative release", SM + ": Drop for SparseMatrix"), ("owned collections everywhere else", "all crates")])

prop("C18", "Values are independent and reading changes nothing",
     "Every value of the library owns what it is. Cloning gives a value equal to the original, and whatever is done afterwards to one value (changing it, letting a request on it be refused or be cut short by a panic of caller-supplied code, dropping it) leaves every other value exactly as it was, clones and values computed from it included. Reading a value (printing, comparing, iterating, taking views, computing something from it) leaves it and every other value as they were, even when the reading is cut short. What a value is, and what it answers, is decided by the steps that made it alone: made again by the same steps, with nothing else in between, it is the same.",
     ["histories", "crash_points", "inputs"],
     "every interleaved history of makings, clones, changes, readings and releases of any number of values, every point at which caller-supplied code inside them may panic",
     "tests look at one value right after one call; the property quantifies over what happens to all the other values during whole histories",
     [LA, MI, SM, "topo_spaces/src/graph.rs", "topo_spaces/src/cubical.rs", "topo_spaces/src/simplicial/mod_impl.rs", "analysis/src/lib.rs", "util/src/lib.rs"],
     [("deep copy of a raw buffer", MI + ": Clone for Matrix, as_matrix"), ("clones of shared nodes", SM + ": SparseMatrix and its derived Clone over Rc"), ("views that write into their matrix", MI + ": SubMatrix"), ("derived Clone elsewhere", "all crates")])

prop("C19", "Motions of several points do what they say, however they are put together",
     "A motion of several points on a graph (an edge path: stages of simultaneous moves along edges) can be composed, inverted, reduced and evaluated in any order and keeps its meaning. Reducing gives a motion that is still free of collisions, uses only moves that were there, brings every point where it went before, differs from the original only by cancelling moves that undo each other and exchanging moves elsewhere on the graph, and has no more moves than are needed. The inverse brings every point back, and a motion followed by its inverse reduces to no motion at all. A motion that permutes the points evaluates to that permutation: composing motions multiplies their permutations, inverting a motion inverts it, and its order is the number of times after which every point is back.",
     ["schedules", "histories", "inputs"],
     "every schedule of simultaneous moves of any number of points, stalls, returns and broken-off motions included, every history of compositions, inversions and reductions",
     "tests reduce a few paths of one computation; the property quantifies over all schedules of points and all histories of operations on motions",
     ["topo_spaces/src/cubical.rs", "alg/src/non_commutative/permutation.rs", "topo_spaces/src/graph.rs"],
     [("commuting and cancelling of moves", "topo_spaces/src/cubical.rs: EdgePath::reduce_to_geodesic"), ("reversal of stages", "topo_spaces/src/cubical.rs: EdgePath::inverse"), ("following the points", "topo_spaces/src/cubical.rs: EdgePath::evaluate_permutation"), ("explicit permutations", "alg/src/non_commutative/permutation.rs: ConstPermutation, VecPermutation")])

PURE = "it is a pure function of its arguments: no schedule, clock, I/O, fault, history or other party takes part"
def pure(id, title, statement, files, mech):
    prop(id, title, statement, ["inputs"], "every valid input", "tests sample a handful of inputs; the property quantifies over all of them", files, mech)
pure("C20", "Smith normal form is a diagonalisation by invertible integer matrices",
     "For every integer matrix the Smith normal form routine returns invertible row and column transformations (with their inverses) that turn the matrix into a diagonal one whose diagonal entries divide each other in turn.", [MI], [("smith_normal_form", MI)])
pure("C21", "Numerical linear algebra is backward accurate",
     "Determinant, linear solving, QR, Hessenberg, tridiagonalisation, eigenvalue and eigenvector routines return results whose residual is within a small multiple of machine precision for every well-conditioned input, and terminate.", [MI], [("numerical routines on Matrix<f64>", MI)])
pure("C22", "Permutations form a group",
     "Multiplication, inverse, powers, order and cycle decomposition of permutations in every representation satisfy the group laws and agree with evaluation point by point.", ["alg/src/non_commutative/permutation.rs"], [("Permutation, ConstPermutation, VecPermutation", "alg/src/non_commutative/permutation.rs")])
pure("C23", "Rational arithmetic is exact and canonical",
     "Rational arithmetic satisfies the field laws, keeps every value in lowest terms with a single representation of zero, and orders values like the real numbers, as long as nothing overflows.", ["alg/src/commutative/rational_impl.rs"], [("optimize", "alg/src/commutative/rational_impl.rs")])
pure("C24", "Principal-ideal-domain operations satisfy their identities",
     "Greatest common divisor, Bezout coefficients, Euclidean division, divisibility and primality of every coefficient type satisfy their defining identities.", ["alg/src/commutative.rs"], [("pid_impl", "alg/src/commutative.rs")])
pure("C25", "Symbolic derivatives are the derivatives",
     "The partial derivatives and Jacobians of every symbolic function evaluate to the derivative of the function, and symbolic arithmetic evaluates to the arithmetic of the values.", ["analysis/src/lib.rs"], [("partial_derivative", "analysis/src/lib.rs")])
pure("C26", "Delaunay triangulation has the empty-circle property",
     "For every finite set of points in general position the triangulation covers their convex hull with triangles whose circumcircles contain no other point.", ["geom/src/lib.rs"], [("delaunay triangulation", "geom/src/lib.rs")])
pure("C27", "Fixed-size vectors and matrices compute entry-wise",
     "Arithmetic, norms and products of fixed-size vectors and matrices equal their entry-wise definitions.", ["alg/src/lin_alg/const_matrix_impl.rs"], [("ConstVector, ConstMatrix", "alg/src/lin_alg/const_matrix_impl.rs")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
