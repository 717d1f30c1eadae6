#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (development helper; both outputs are committed)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CT, OT, OP, PA, PL, UT, EC = ["oranssi/%s.py" % x for x in (
    "circuit_tools", "opt_tools", "optimizers", "pauli", "plot_utils", "utils", "edge_coloring")]
P = []


def p(id, title, statement, over, text, why, files, mech, note):
    assert len(title) <= 80, (id, len(title))
    P.append((id, title, statement, over, text, why, files, mech, note))


p("C01", "Promoting a local operator equals a tensor product with identities",
  "Promoting an operator on any ordered selection of distinct qubits to n qubits gives exactly the matrix that acts as that operator on "
  "those qubits, in that order (qubit 0 being the most significant), and as the identity elsewhere, as a fresh array that leaves the "
  "input untouched. A wire outside the register, or a number of wires that does not fit the operator, is refused with an assertion.",
  ["inputs"], "all operators (any dtype, memory layout), all ordered wire subsets and containers, all n",
  "tests promote a few named gates on a few wire tuples; index permutations only go wrong for unordered, non-adjacent wires and dense operators",
  [CT], [("get_full_operator", CT)], "n <= 8")
p("C02", "Extracted gates multiply to the circuit's unitary",
  "The gates and wires extracted from a circuit, multiplied in order, give the unitary that the circuit implements for the given parameters, "
  "whatever gates, wires, inverses and parameters it contains and whichever measurement it ends in. Extracting again with other "
  "parameters gives the unitary for those, and the parameters are not changed.",
  ["inputs", "programs"], "all circuits of unitary gates, all parameter vectors, repeated extraction",
  "tests extract two fixed circuits", [CT], [("get_ops_from_qnode", CT)], "n <= 6, up to 14 gates, up to 11 parameters")
p("C03", "Simulating a unitary returns its state and expectation values",
  "Running the circuit built from a unitary U returns the state U|0>, and the expectation value of any observable in exactly that state, "
  "for every unitary (global phase included) and in any sequence of evaluations. The matrix is not changed, and a call without the "
  "required arguments is refused with an assertion.",
  ["inputs", "histories"], "all unitaries, observables and sequences of evaluations on shared circuits",
  "tests evaluate one or two unitaries", [CT], [("circuit_state_from_unitary, circuit_observable_from_unitary", CT)], "n <= 6")
p("C04", "The Hamiltonian matrix is the weighted sum of its observables",
  "The matrix built from a list of observables is the sum of the observables on the full register, each multiplied by its own coefficient, or "
  "by one when no coefficients are given, for any number of observables, duplicates and coefficient types included. Observables and "
  "coefficients are not changed and every call returns a matrix of its own.",
  ["inputs"], "all observable lists, with and without coefficients", "tests build one Hamiltonian",
  [CT], [("get_hamiltonian_matrix", CT)], "n <= 6, up to 45 observables")
p("C05", "Operator bases list every Pauli word once, in order, names matching matrices",
  "The bases for 2x2, 4x4 and 2^k x 2^k operators contain every word over X, Y, Z (or I, X, Y, Z on request) exactly once in lexicographic "
  "order, and each name is the name of the matrix at the same position. The answer does not depend on earlier requests, even if the "
  "caller overwrote what it received.",
  ["inputs", "histories"], "all sizes, both switches, all sequences of requests", "tests check sizes 2 and 4 once",
  [UT], [("get_su_2_operators, get_su_4_operators, get_su_n_operators", UT)], "k <= 6")
p("C06", "Parameter shift on operators gives the commutator",
  "For every matrix rho and every observable O with O*O = 1, the parameter-shift formula evaluated with the gate t -> exp(-i t O / 2) "
  "equals i[rho, O]. Neither rho nor the gate's matrices are changed.",
  ["inputs"], "all matrices rho, all involutions O", "one test samples single-qubit Paulis",
  [CT], [("param_shift_comm", CT)], "n <= 6")
p("C07", "The gradient table holds Im<[P,H]>/2^n for every Pauli word",
  "For every unitary U and list of observables, the table of Riemannian gradients has one entry for each of the 4^n Pauli words P, equal to "
  "the imaginary part of <0|U+ [P, H] U|0> divided by 2^n, H being the sum of the observables. The table is the same whether it is "
  "requested directly or through any of the layers.",
  ["inputs", "configurations"], "all unitaries, observable lists, layer classes", "no test looks at the values of the table",
  [CT, OT], [("get_all_su_n_directions", CT), ("LieLayer.get_lie_algebra_directions", OT)], "n <= 5")
p("C08", "A commuting selection is a non-empty set of given, disjoint edges",
  "From any list of edges the selection contains only edges of the list, in the orientation given, no two of which share a qubit, and at "
  "least one edge. A list without overlaps is returned unchanged, and the caller's list is never modified.",
  ["inputs", "histories"], "all edge lists (any graph), any state of the random generator", "the one test colours a small ring",
  [CT, EC], [("get_commuting_set", CT), ("applyHeuristic", EC)], "up to 16 vertices")
p("C09", "Edge colouring reports success exactly for proper colourings",
  "For every simple graph and a number of colours D at least the maximum degree, the colouring procedure terminates, gives every edge one "
  "colour in 0..D-1 and answers whether the colouring is proper (no two edges at a node share a colour); with at least twice "
  "the maximum degree minus one colours it always succeeds. The verifier says yes exactly for proper colourings with colours below "
  "D, and neither changes the graph's nodes or edges.",
  ["inputs", "schedules"], "all graphs, colour counts, limits, random choices", "not tested directly",
  [EC], [("applyHeuristic, checkEdgeColoring", EC)], "up to 14 nodes; deterministic budget of executed lines for termination")
p("C10", "Every step of the exact optimizer is the Riemannian gradient-flow step",
  "Every step of the exact optimizer multiplies the current unitary, for each observable O in the given order, by exp(eta/2 [rho, O]) "
  "where rho is the current state (for observables with O*O = 1); the recorded costs, states and unitary are those of exactly this flow from the "
  "circuit's unitary, with 0.1 and 40 as default step size and number of steps.",
  ["inputs", "histories"], "all initial circuits, involutory observables, step sizes in [0,1], numbers of steps",
  "tests compare end costs of a few models with their ground energy", [OP, CT], [("exact_lie_optimizer", OP), ("param_shift_comm", CT)], "n <= 5, up to 110 steps on one qubit")
p("C11", "Gradient steps lower the energy as predicted and stay in the spectrum",
  "Under the exact flow of a single observable with O*O = 1 the cost follows the closed-form solution and never rises, for any step size in [0,1]. "
  "One step of the local, custom-direction or stochastic layer with a small step size changes the energy by minus the step size times the "
  "squared gradient along the directions used, up to second order. All recorded costs of any optimizer lie between the lowest and the "
  "highest eigenvalue of the Hamiltonian.",
  ["inputs", "histories"], "all initial circuits and unitaries, observables, step sizes", "tests only compare final costs of a few runs",
  [OP, OT], [("optimizers", OP), ("layers", OT)], "n <= 5; second-order bound computed from norms")
p("C12", "Early stopping and perturbation happen exactly when the cost stalls",
  "A run takes at least one and at most the requested number of steps (default 40). The exact optimizer stops exactly at the first step after "
  "its fourth whose cost equals the previous one within the tolerance, the parameter-shift optimizer likewise after its third, the approximate "
  "optimizer after its ninth when the cost equals the cost five steps before; with tolerance None it never stops. With "
  "perturbation switched on a run never stops early and the steps reported as perturbed are exactly those stalls.",
  ["inputs", "histories"], "all cost traces, tolerances, step limits, switches", "tests use runs that stop once, never near the limits",
  [OP], [("early stopping blocks", OP)], "traces up to 40 steps; decisions within 1e-12 of the threshold not judged")
p("C13", "All records an optimizer returns describe the same run",
  "For every combination of return switches an optimizer returns the cost list alone, or a tuple of the requested records in the documented "
  "order; there is one state, unitary and parameter record per cost and one gradient table and phase per step. Every cost is the "
  "energy of the state, unitary or parameters recorded with it, states are the first columns of the unitaries, gradient tables and "
  "phases belong to the unitary of their step, and the first record is the initial circuit.",
  ["inputs", "configurations", "histories"], "all switch combinations, layers, initial circuits, perturbed runs included",
  "tests request one record at a time and look at lengths", [OP], [("returnables of the three optimizers", OP)], "n <= 4, up to 60 steps")
p("C14", "Parameter-shift optimization is gradient descent on the circuit parameters",
  "Every step of the parameter-shift optimizer subtracts the step size times the exact gradient of the total energy from the parameters, for "
  "shared, scaled and unused parameters alike. Recorded parameters, costs and states belong to the same step, beginning with the "
  "initial one, and the caller's parameters are not changed.",
  ["inputs", "histories"], "all parametrised circuits, observables, step sizes", "tests run one circuit to convergence",
  [OP], [("parameter_shift_optimizer", OP)], "n <= 4, up to 12 parameters")
p("C15", "The approximate optimizer applies its layers round robin to the current unitary",
  "Step k of the approximate optimizer calls layer k modulo the number of layers, exactly once, with the unitary of the step before (at first the circuit's), "
  "and records what the layer returned; adaptive layers are handed the current parameters and an optimizer. After a stall, if "
  "perturbing is on, the unitary handed on is first multiplied by a real rotation no further from the identity than about the step size. "
  "The caller's layer list and parameters are not changed.",
  ["inputs", "histories"], "all layer lists (repeated objects, user-defined layers), step counts, perturbed runs",
  "tests use one or two layers and look at costs", [OP], [("approximate_lie_optimizer main loop", OP)], "n <= 4, up to 70 steps")
p("C16", "A local layer step is the product of exponentials of the local gradients",
  "One call of the local layer returns the given unitary multiplied, for each observable O and each qubit (or each pair of qubits), by "
  "the exponential of the gradients of O along the allowed words on those qubits with step eta/2^n, all gradients taken in the incoming state; "
  "with trotterisation each word has its own exponential. The result is unitary "
  "(with the unitarity check on even when the observables are huge), the given matrix is not changed, and a new step size takes effect at the next call.",
  ["inputs", "histories", "configurations"], "all unitaries, observables, localities, direction filters, options, call sequences",
  "tests only run whole optimizations and compare end costs", [OT], [("LocalLieAlgebraLayer", OT)], "n <= 6, up to 45 calls on one or two qubits")
p("C17", "A custom-direction step uses exactly the allowed words on all qubits and pairs",
  "One call of the custom-direction layer returns the given unitary multiplied, for each observable, by the exponential of its gradients along "
  "exactly the allowed one- and two-letter words on every qubit and every ascending pair of qubits, with step eta/2^n, all gradients "
  "taken in the incoming state; without a direction list all such words are used. The result is unitary, and a changed "
  "step size takes effect at the next call.",
  ["inputs", "histories", "configurations"], "all unitaries, observables, direction lists, options, call sequences", "tests run two direction lists",
  [OT], [("CustomDirectionLieAlgebraLayer", OT)], "n <= 4, up to 45 calls on one or two qubits")
p("C18", "The stochastic layer sweeps qubits and words without replacement",
  "Each call draws a word and qubits for it: no qubit is drawn twice before all have been used, and no word is drawn twice before the word list is exhausted "
  "(one-letter words are refilled when a single qubit is left without one); over long histories every word and every set of qubits is drawn. The step taken is the "
  "exponential of the gradient along exactly the drawn word with step eta/2^n.",
  ["histories", "schedules"], "all sequences of calls and random choices", "tests run the layer for a few steps and look at the cost",
  [OT], [("AlgebraSU4 sampling, StochasticLieAlgebraLayer", OT)], "n <= 6, up to 600 draws; no claim about probabilities")
p("C19", "Line searches take the steepest allowed word and its optimal angle",
  "Each call of a line-search layer rotates along one Pauli word of an allowed length, whose gradient is the largest in absolute value among all such words (the one- and two-qubit "
  "layer leaves out the word of its previous call), by the angle that minimises the energy along that word, so the energy never rises. A line "
  "search along a given Pauli word of any weight likewise returns the minimising angle and the unitary reached.",
  ["inputs", "histories"], "all unitaries, observables, switches, call sequences, words of any weight", "tests run a few optimizations",
  [OT], [("SquaredLieAlgebraLayer, SU8_AlgebraLayer, rotosolve", OT)], "n <= 5; ties within 1e-9 accepted either way")
p("C20", "A commuting layer rotates disjoint qubits along one near-steepest word",
  "A commuting call returns rotations of one common word on pairwise disjoint qubits, each with a gradient within 1e-3 of the steepest, leaving out the rotation of the preceding "
  "ordinary call, and containing all such ties of that word if these do not overlap. The returned unitary is the given one followed by the returned rotations at the "
  "returned angles, which are the last parameters of the optimizer it was given, run on exactly this circuit.",
  ["inputs", "histories"], "all unitaries, observables, earlier calls, optimizers", "not tested", [OT, CT],
  [("SquaredLieAlgebraLayer commute branch", OT), ("get_commuting_set", CT)], "n <= 5")
p("C21", "The adaptive layer grows its circuit by the steepest group of words",
  "Each call of the adaptive layer appends one group (a word on all single qubits, on all even, or on all odd neighbouring pairs, the ring-closing pair included) whose summed "
  "absolute gradient is largest and whose word differs from the call before, with one parameter per rotation. Earlier layers and their parameters are kept, and the "
  "returned unitary is the whole circuit, starting from the uniform superposition, at the optimized parameters it returns. The caller's parameters are not changed.",
  ["inputs", "histories"], "all unitaries, observables, call sequences, optimizers", "tests run one example", [OT], [("AdaptVQELayer", OT)], "n <= 5, up to 11 calls")
p("C22", "The alternating layer keeps its schedule and takes the steps it announces",
  "The alternating layer repeats a line-search steps followed by b three-qubit steps for every ratio a:b; line-search steps take the steepest two-qubit word (or one-qubit word, if these are switched on) at its optimal angle. "
  "A three-qubit step is one rotation along such a word that shares exactly one qubit with the last word and does not commute with it, whose product with it acts on three qubits (fewer, if such words are switched on) and has a gradient above 1e-3, by the angle "
  "proportional to the step size, that gradient and the inverse of the last line-search angle, or no change if there is no such word. All results are unitary and the given matrix is not changed.",
  ["inputs", "histories", "configurations"], "all unitaries, observables, ratios, call sequences", "tests run one example", [OT], [("ZassenhausLayer, ZassenhausLayerV2", OT)],
  "n 3-4; three-qubit steps judged while the last word can be read off")
p("C23", "Operator tables contain every word on every qubit subset, with the right matrix",
  "The operator tables of the one-, two- and three-qubit algebras contain, for each word length switched on, every word on every ascending subset of qubits, and every entry is the "
  "tensor product that its key names. Building again, adding words on arbitrary qubits or drawing random words never loses or changes an entry.",
  ["inputs", "histories"], "all register sizes, switches, sequences of operations", "not tested directly", [OT, CT], [("AlgebraSU2, AlgebraSU4, AlgebraSU8", OT)], "n <= 6")
p("C24", "Pauli strings multiply, commute and conjugate as their matrices do",
  "Products and commutators of Pauli operators and strings, including those of results of earlier operations, equal the products and commutators of the matrices they denote, coefficients "
  "(real, complex or symbolic) and phases included; two strings are reported to commute exactly if their matrices do; conjugation gives the adjoint. Operands are not changed by "
  "products and commutators, and products of operators on different sites are refused with an assertion.",
  ["inputs", "programs"], "all strings on up to six sites, all coefficients, nested operations", "the Pauli algebra has no tests", [PA], [("Pauli, PauliMonomial", PA)], "up to six sites")
p("C25", "Sums of Pauli strings add, subtract, multiply and scale as matrices",
  "Sums of Pauli strings behave under addition, subtraction, multiplication and scaling like the matrices they denote, with repeated strings merged. "
  "Only in-place scaling changes a sum; operands, and the strings a sum was built from, keep their values, however results are used again.",
  ["inputs", "programs"], "all programs over a pool of sums", "the Pauli algebra has no tests", [PA], [("PauliSum", PA)], "1-6 sites, up to 9 strings per sum")
p("C26", "Pauli strings have consistent equality, hashing, order and table keys",
  "Two strings on the same sites are equal exactly if they have the same letters and both have a real or both an imaginary coefficient, equal strings have equal hashes, and the order is a strict total order by letters, then imaginary "
  "before real, then coefficient value; single operators are equal exactly if site and letter agree. The operator-table key of a string is its non-identity letters and "
  "their sites, by ascending site.",
  ["inputs"], "all lists of strings, all pairs", "the Pauli algebra has no tests", [PA], [("PauliMonomial.__eq__, __hash__, __lt__, to_oranssi; Pauli.__eq__, __hash__", PA)], "1-4 sites")
p("C27", "Bloch-sphere conversions are inverse to each other",
  "Every pair of angles is converted to a normalised single-qubit state with that Bloch vector, and every state, rounding errors included, to finite angles with "
  "0 <= phi < 2 pi and 0 <= theta <= pi with cos(theta) the z component of its Bloch vector and phi the azimuth of its x and y components (polar angles phi within 1e-3 of a full turn may come back as 0). "
  "So converting back and forth reproduces angles and pure states.",
  ["inputs"], "all angles, pure and mixed states", "one test converts a few angles", [PL], [("state_to_spherical, spherical_to_state", PL)], "tolerance 1e-6")
p("C28", "Plotted gradient curves show the gradients of the words they are labelled with",
  "In the gradient figures, the curve labelled SU(2^k) shows for every unitary the sum of absolute gradients over the words with exactly k non-identity letters, and a curve labelled with a word shows "
  "that word's gradient; each expected curve is drawn exactly once, in its own panel where there are several, and zero curves are omitted where curves are drawn per word. The cost landscape "
  "covers the given grid and cost range and shows at each grid point the cost given for it.",
  ["inputs"], "all sequences of unitaries and observables", "plotting functions are not run by tests", [PL], [("plot_su8_directions, plot_su16_directions, plot_su8_directions_individually, plot_su16_directions_separate, plot_bloch_sphere_2d", PL)],
  "two and four qubits")
p("C29", "Invalid options are refused before any work, valid ones accepted",
  "Every optimizer, layer and Pauli constructor refuses an option of wrong type or out of range, an unknown direction, a register of unsuitable size or an unsuitable circuit with an assertion (the parameter-shift "
  "optimizer refuses a circuit with a measurement with an attribute error) before calling a layer or changing anything. Every value in the documented range, "
  "boundaries included, is accepted in every combination.",
  ["inputs", "configurations"], "all options, valid values and one invalid value at a time", "tests try a few invalid values",
  [OP, OT, PA, CT], [("assertions at the top of optimizers and constructors", OP)], "option values from fixed tables")
p("C30", "Layers and optimizer runs sharing a device do not influence each other",
  "Whatever sequence of layer calls, step-size changes, gradient tables and optimizer runs shares one device, with the same or different observables, every layer and run produces exactly what it "
  "produces alone; a layer whose step size was changed acts like one constructed with it. Unitaries and observables passed in are not changed, results handed out earlier do not change later, and every result is unitary.",
  ["histories", "programs"], "all interleavings of operations on up to four layers of any class", "tests use each layer once, alone",
  [OT, OP], [("layer state, shared device", OT)], "n <= 4, up to 14 operations")
p("C31", "The operator two-norm is sqrt(tr(R+ R))",
  "The operator norm of every matrix, complex or rectangular ones included, is the real non-negative square root of the sum of the squared absolute values of its entries; it is homogeneous, unitarily invariant and satisfies the triangle inequality. The matrix is not changed.",
  ["inputs"], "all matrices", "one test uses a fixed matrix", [UT], [("operator_2_norm", UT)], "dimension up to 32")
p("C32", "Requesting an output directory creates it and never loses files",
  "Requesting the output directory for a base path and a name returns their joined path, which is a directory afterwards, missing parents created. Requesting it again, or one above or below it, keeps all files "
  "and directories, and nothing else is created.",
  ["inputs", "histories"], "all paths, all sequences of requests and writes", "not tested", [UT], [("save_path_creator", UT)], "scratch directory only")

p("C33", "Printed and TeX forms of Pauli strings can be read back",
  "The printed form and the TeX form of a Pauli operator or string, results of products, commutators and conjugation included, list its letters "
  "with their sites by ascending site (printed form: S(site,letter index); TeX: \\sigma_{site}^{letter}, I_{site} for an identity) and "
  "show its coefficient in front, so that the object can be read back from the text; the printed form leaves out only a coefficient of one, "
  "the TeX form without coefficient always. Printing changes nothing.",
  ["inputs", "programs"], "all Pauli operators and strings, all coefficients, all results of operations", "not tested",
  [PA], [("Pauli.__repr__, Pauli.tex, PauliMonomial.__repr__, PauliMonomial.tex", PA)], "up to four sites, nested results")
p("C34", "Layers report the directions and options they were built with",
  "The direction names a layer reports are exactly the words it can step along, in lexicographic order by length: the requested ones for the local layer, "
  "each requested word with every qubit or ascending pair for the custom-direction layer, all words of the allowed lengths for the others "
  "(one list per length for the alternating layers). Its printed form shows the same names after 'directions ->' (the alternating layers name the groups instead), the group it acts on and whether it "
  "is trotterised. Neither changes through steps, step-size changes or other layers.",
  ["inputs", "histories"], "all layer classes and options, all sequences of steps", "not tested",
  [OT], [("get_lie_algebra_directions_strings and __repr__ of all layers", OT)], "n <= 5, 3 layers, 5 operations")
AG = "experiments_paper/algebra_graphs.py"
p("C35", "The algebra graph is the commutator closure of its generators",
  "For every list of three-qubit Pauli strings with unit coefficients the generated graph has as nodes exactly the strings obtained by repeated commutators of "
  "the generators (strings with real and imaginary coefficient told apart; plus the identity in the undirected graph), each once. In the undirected graph "
  "the edges join each string to its commutators with the others and to the identity; in the directed graph each string has as depth the number of rounds of commutators needed to reach it "
  "and is joined from two strings it is the commutator of. The generators are not changed.",
  ["inputs"], "all generator lists", "not tested", [AG, PA],
  [("generate_product_algebra_graph, generate_product_algebra_digraph, SU4_to_SU8_algebra", AG), ("PauliMonomial.commutator, __eq__, __hash__", PA)],
  "three qubits, up to four generators")

if __name__ == "__main__":
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for id, title, statement, over, text, why, files, mech, note in P:
            f.write(json.dumps({
                "id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                "why_tests_cant": "They would have to hold for " + text + "; today " + why + ".",
                "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "hook_needed": None}}) + "\n")
    man = {"version": 1,
           "setup_cmd": "python3-vt -c 'import hypothesis' && /opt/venv/bin/python -c 'import numpy, pennylane' && test -d /repo/oranssi",
           "checks": [{
               "property": q[0], "quick_cmd": "python3-vt check.py %s --tier quick" % q[0],
               "thorough_cmd": "python3-vt check.py %s --tier thorough" % q[0], "evidence_file": "evidence/%s.json" % q[0],
               "technique": "property-based testing: generated cases against an independent oracle, with shrinking",
               "level": "exploration",
               "level_note": "No counterexample among the generated cases (%s); trusts the oracle, the generators and numpy/PennyLane's simulator." % q[8]}
               for q in P],
           "not_applicable": [],
           "notes": "Hypothesis generates and shrinks in python3-vt; a worker in the repository's own PyPy interpreter evaluates each case against /repo's working tree. No hooks in /repo."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
