#!/usr/bin/python3
"""Writes /verif/properties.jsonl (kept as a table here so that it stays readable)."""
import json, os
S = "symmetrix/source/symmetrix/"
L = "libsymmetrix/source/"
P = "pair_symmetrix/"
ROWS = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    ROWS.append({"id": id, "title": title, "statement": statement,
                 "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
                 "anchors": {"files": files,
                             "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                             "mechanism": [{"name": n, "where": w} for n, w in mech],
                             "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Per-atom energies are the MACE energies the model file defines",
  "For every well-formed model file and every neighbour list, the evaluator's per-atom energies equal the two-layer MACE energy that the file's numbers define (splined radial functions, spherical harmonics, density projections, symmetrised products, message passing over the neighbours, linear and nonlinear readouts, per-element reference energies, optional density scaling and optional ZBL term). Atoms without neighbours get the same formula with empty sums. How the caller holds the numbers (lists, arrays of any integer type or memory layout) makes no difference.",
  ["inputs", "configurations"], "all model files (any number of elements and channels, l_max, L_max, scaled or unscaled densities, with or without ZBL) and all neighbour lists",
  "The only tests of the evaluator need a trained model and reference packages that are not in the repository, and compare one water box; element pairs, unusual channel counts, scaled densities, isolated atoms and asymmetric coverage are never exercised.",
  [L+"mace.cpp", L+"mace.hpp", "symmetrix/source/cpp/mace.cpp"],
  [("forward pass compute_R0..compute_readouts", L+"mace.cpp"), ("from-JSON loading", L+"mace.cpp load_from_json")],
  [("H1, H2, M0, M1, A0, A1, Phi0, Phi1", "per-atom features of the two interactions", L+"mace.hpp")],
  ["MACE.compute_node_energies_forces -> node_energies"])

prop("C02", "Edge forces are the exact negative gradient of the total energy",
  "For every model file and neighbour list, the force reported for each neighbour-list entry is minus the derivative of the total energy the model file defines with respect to that entry's displacement vector, with all other entries held fixed. Consequently atom forces derived from them conserve momentum and energy in dynamics.",
  ["inputs", "configurations"], "all model files, neighbour lists and edges, including every element pair, density scaling, and edges at or beyond the cutoff",
  "Existing tests compare finite differences on single components of hand-picked inputs and only where optional reference packages are installed; the derivative must be right for every path by which a displacement enters the energy.",
  [L+"mace.cpp", L+"mace.hpp"],
  [("reverse pass reverse_Phi0..reverse_A1_scaled", L+"mace.cpp")],
  [("node_forces", "-dE/dr for every neighbour entry", L+"mace.hpp")],
  ["MACE.node_forces after compute_node_energies_forces"])

prop("C03", "Energies are invariant and forces covariant under symmetry operations",
  "For every equivariant model, rotating, reflecting or translating the configuration leaves per-atom energies unchanged and rotates forces and stress with it; relabelling atoms permutes the per-atom results; and permuting the neighbours of an atom permutes its edge forces and changes nothing else.",
  ["inputs"], "all configurations, rotations/reflections, atom relabellings and neighbour orders",
  "The suite has no symmetry test of the evaluator; sampled configurations in one orientation cannot reveal an axis swapped or a neighbour order assumed.",
  [L+"mace.cpp", L+"cubic_spline_set.cpp", "symmetrix/source/symmetrix/symmetrix_calc.py"],
  [("axis shuffle between e3nn and sphericart order", L+"mace.cpp compute_Y"), ("neighbour sums", L+"mace.cpp")],
  (), ["MACE.node_energies", "MACE.node_forces"])

prop("C04", "Results depend only on the current inputs, never on earlier calls",
  "An evaluator object gives the same energies and forces for a configuration whatever configurations (larger, smaller, of other elements, without neighbours) it evaluated before, and two evaluators never influence each other.",
  ["histories"], "all sequences of evaluations on one or several evaluator objects",
  "Tests evaluate one configuration per object; stale work arrays only show up after particular sequences of sizes and compositions.",
  [L+"mace.cpp", L+"mace.hpp", L+"multilayer_perceptron.cpp", L+"multivariate_polynomial.cpp"],
  [("resize/zero-fill of work arrays at the start of each stage", L+"mace.cpp")],
  [("Phi0, Phi1r, A0_adj, H1_adj, node_forces ...", "work arrays kept between calls", L+"mace.hpp")],
  ["MACE.compute_node_energies_forces"])

prop("C05", "Cubic splines interpolate their nodes smoothly and exactly",
  "A spline built from equally spaced values and derivatives reproduces every node value and derivative, is the unique cubic Hermite interpolant between nodes, and reports a derivative that is exactly the derivative of the value it reports, everywhere from the first node up to, not including, the last. Arguments outside that domain (negative, or at or beyond the last node) are rejected rather than extrapolated.",
  ["inputs"], "all node data, spacings and evaluation points", "A handful of nodes of one smooth function is sampled; interval selection at nodes, at the last point and just outside is not.",
  [L+"cubic_spline.cpp", L+"cubic_spline.hpp"],
  [("interval selection and cubic coefficients", L+"cubic_spline.cpp")], (), ["CubicSpline.evaluate", "CubicSpline.evaluate_deriv"])

prop("C06", "A spline set evaluates each member exactly as a single spline would",
  "A spline set of any number of splines returns, for every spline and every argument in the domain, the same value and derivative as the cubic Hermite interpolant of that spline's own node data, in the order of the splines, through every evaluation method it offers. Arguments outside the domain (negative, or at or beyond the last node) are rejected.",
  ["inputs", "configurations"], "all numbers of splines, node data, spacings, arguments and evaluation methods", "Tests use few splines of one shape and interior points; interleaving and strides are only sampled.",
  [L+"cubic_spline_set.cpp", L+"cubic_spline_set.hpp"],
  [("interleaved coefficient layout", L+"cubic_spline_set.cpp")], (), ["CubicSplineSet.evaluate", "CubicSplineSet.evaluate_derivs"])

prop("C07", "The perceptron computes its network and its exact input gradient",
  "For every shape, weights and activation scale, the perceptron's value is the feed-forward network its weights define and its gradient is the exact gradient of that value with respect to the inputs; batched evaluation equals evaluating each row separately, whatever was evaluated before.",
  ["inputs", "configurations", "histories"], "all layer shapes (wide, deep, one unit), weights, inputs and batch sizes, in any sequence of calls", "Tests check two fixed shapes with a few inputs; saturating activations, batch size changes and degenerate widths are not sampled.",
  [L+"multilayer_perceptron.cpp", L+"multilayer_perceptron.hpp"],
  [("forward/backward sweeps with saved activations", L+"multilayer_perceptron.cpp")],
  [("node_values, node_derivatives", "activations saved by the forward sweep", L+"multilayer_perceptron.hpp")],
  ["MultilayerPerceptron.evaluate", "evaluate_gradient", "evaluate_batch", "evaluate_batch_gradient"])

prop("C08", "Symmetrised-product polynomials are evaluated with exact gradients",
  "For every list of distinct monomials (any arity, repeated variables, monomials that divide one another) and coefficients, each of the evaluation methods returns the value of the polynomial and its exact gradient, they all agree with each other, and batches equal single evaluations, whatever was evaluated before.",
  ["inputs", "configurations", "histories"], "all monomial sets, coefficients, variable values and call sequences", "Tests use a small fixed set of monomials; the factorisation graph built from the monomials has cases only particular sets reach.",
  [L+"multivariate_polynomial.cpp", L+"multivariate_polynomial.hpp"],
  [("computation-graph construction and forward/backward passes", L+"multivariate_polynomial.cpp")],
  [("nodes, edges, products", "factorisation graph shared by evaluations", L+"multivariate_polynomial.hpp")],
  ["MultivariatePolynomial.evaluate", "evaluate_gradient", "evaluate_batch", "PolynomialPtr-style methods in bindings"])

prop("C09", "The ZBL pair term is the screened-nuclear potential with smooth cutoff",
  "For every pair of elements and distance, the ZBL energy equals the universal screened-nuclear expression times the polynomial envelope that ends at the sum of the two covalent radii, is symmetric in the two elements, is exactly zero from that distance on, and its reported gradient is the exact derivative of the energy.",
  ["inputs", "configurations"], "all element pairs, parameters and distances up to and beyond the cutoff", "The test compares a few distances for given parameters; exchange of unequal elements, the cutoff point and non-default parameters are not covered.",
  [L+"zbl.cpp", L+"zbl.hpp"],
  [("compute/compute_gradient/compute_envelope", L+"zbl.cpp")], (), ["ZBL.compute", "ZBL.compute_gradient", "ZBL.compute_envelope", "ZBL.compute_envelope_gradient"])

prop("C10", "ZBL contributions accumulate over neighbour lists without loss or overwrite",
  "Adding the ZBL term to a configuration increases each atom's energy by half the pair energy of each of its neighbours and each entry's force by minus the gradient of that half energy along the entry's direction, on top of whatever the arrays held, for any neighbour list, including atoms with no neighbours and pairs beyond the ZBL cutoff.",
  ["inputs", "configurations"], "all neighbour lists, element assignments and prior array contents", "No test reaches the accumulation: the bindings expose only the pair function.",
  [L+"zbl.cpp", L+"mace.cpp"],
  [("compute_ZBL loop", L+"zbl.cpp"), ("has_zbl branch", L+"mace.cpp")], (), ["ZBL::compute_ZBL", "MACE with has_zbl"])

prop("C11", "Combinatorial helpers enumerate exactly the sets they promise",
  "The combinatorial helpers (binomial coefficients, set partitions, two-part partitions, permutations, combinations, repeated products, bounded index tuples) return exactly the elements of the mathematical set they name, each once, in a deterministic order, for every admissible argument.",
  ["inputs"], "all arguments up to the sizes used for symmetrised products and beyond", "A few small examples are listed in the tests.",
  [L+"tools.cpp", L+"tools.hpp"], [("recursive/iterative enumeration", L+"tools.cpp")], (), ["functions bound from tools.hpp"])

prop("C12", "Spherical harmonics follow their definition for every direction",
  "The complex and real spherical-harmonic functions, by angle and by Cartesian vector, equal their mathematical definition for every degree and order whose factorials a double can hold and every direction, in all octants and on the axes, and for vectors of any length.",
  ["inputs"], "all degrees, orders and directions", "Tests sample a few directions, all with positive x; quadrant errors stay invisible.",
  [L+"spherical_harmonic.cpp", L+"spherical_harmonic.hpp"],
  [("recurrences and azimuth computation", L+"spherical_harmonic.cpp")], (), ["functions bound from spherical_harmonic"])

prop("C13", "The ASE calculator gives physical results for any structure",
  "For every structure the ASE calculator's energy is the sum of its per-atom energies, its forces are minus the derivative of that energy with respect to positions, and for a fully three-dimensional cell its stress is the derivative with respect to strain over the volume; this holds for periodic cells smaller than the cutoff, mixed or absent periodicity, isolated atoms anywhere in the atom order, single atoms, and any subset of the model's elements.",
  ["inputs", "configurations"], "all structures (cells, periodicity, compositions, atom orders)", "The calculator's tests need trained models that are not shipped and use one bulk structure.",
  [S+"symmetrix_calc.py"], [("neighbour list to evaluator arrays; force and virial assembly", S+"symmetrix_calc.py calculate")],
  (), ["Symmetrix.calculate results"])

prop("C14", "Calculator construction and reuse follow the documented rules",
  "Constructing the calculator accepts a converted model file directly, converts any other model file first (passing on species, head and spline options), rejects unsupported precision/backend combinations with an error before any model is read, and a calculator reused on changed structures returns results for the structure it was last given, recomputing when positions, cell, species or periodicity change; a structure with an element the model does not know is refused, and the calculator stays usable.",
  ["histories", "configurations", "inputs"], "all construction options and all histories of structures, property requests and edits", "Tests construct one calculator per model and evaluate once.",
  [S+"symmetrix_calc.py"], [("constructor validation and conversion fallback; ASE change detection", S+"symmetrix_calc.py")],
  (), ["Symmetrix(...)", "atoms.get_potential_energy / get_forces / get_stress"])

prop("C15", "LAMMPS results do not depend on mode or domain decomposition",
  "For every configuration, the LAMMPS pair style gives the same total energy, per-atom energies, forces and virial in all of its communication modes and for every assignment of atoms to processors and every ghost-atom layout, and they equal the evaluator's result on the whole system.",
  ["schedules", "inputs", "configurations"], "all distributions of atoms over ranks, ghost orders, local/ghost splits, neighbour-list orders and flag combinations", "The tests of the pair style need a LAMMPS build and trained models and cover one water box on few ranks; ghost layouts and decompositions are not enumerated.",
  [P+"pair_symmetrix_mace.cpp", P+"pair_symmetrix_mace.h"],
  [("three compute paths and forward/reverse communication of features", P+"pair_symmetrix_mace.cpp")],
  [("H1, H1_adj", "per-atom features and their adjoints exchanged between ranks", P+"pair_symmetrix_mace.cpp")],
  ["eng_vdwl, eatom, atom->f, virial after compute()"])

prop("C16", "LAMMPS input is validated and elements are mapped to the right types",
  "The pair style accepts exactly the documented style arguments and coefficient lines, maps every atom type to the element named for it in any order, requests the neighbour list and communication cutoff its mode needs, and stops with an error on unknown modes, unknown or missing elements, wrong counts, missing per-type mapping or settings its mode cannot support, instead of computing with a wrong mapping.",
  ["inputs", "histories", "configurations"], "all argument lists, element orders, numbers of types and processors, and command sequences", "The tests of the pair style use one correct input script per mode.",
  [P+"pair_symmetrix_mace.cpp"], [("settings/coeff/init_style/init_one", P+"pair_symmetrix_mace.cpp")],
  [("mace_types", "atom type to model element", P+"pair_symmetrix_mace.h"), ("mode", "communication mode", P+"pair_symmetrix_mace.h")],
  ["Pair::settings, coeff, init_style, init_one"])

prop("C17", "Evaluation is local: distant and disconnected parts do not interact",
  "Evaluating several disconnected groups of atoms together gives each group exactly the energies and forces it has alone and an atom's energy depends only on atoms at most two steps away along its neighbour graph.",
  ["inputs"], "all configurations split into disconnected groups, in any interleaving of atoms", "Tests evaluate one connected structure.",
  [L+"mace.cpp", S+"symmetrix_calc.py"], [("per-atom neighbour sums", L+"mace.cpp")], (), ["MACE.node_energies", "MACE.node_forces"])

prop("C18", "The Kokkos evaluators give the model's energies and forces on any back end",
  "For every model file and every neighbour list, MACEKokkos (double precision) and MACEKokkosFloat (to single precision) report the per-atom energies and per-edge forces that the model file defines, the same as the plain evaluator, whatever the order in which the iterations of their parallel kernels run and the size of the teams that share one, whether or not the device has memory of its own, and whatever was evaluated before; no two unordered iterations update the same number unless atomically. Arrays that stay larger than the current system carry nothing into the answer: entries beyond the atoms are zero energies.",
  ["inputs", "schedules", "histories", "configurations"], "all model files (any number of elements and channels, l_max, L_max, correlation order, scaled densities, ZBL), neighbour lists, iteration orders, memory models and evaluation histories", "The tests of the Kokkos evaluator need trained models and compare a few structures on one back end; iteration orders, device memory and stale work arrays are not explored.",
  [L+"mace_kokkos.cpp", L+"mace_kokkos.hpp", L+"radial_function_set_kokkos.cpp", "symmetrix/source/cpp/mace_kokkos.cpp"],
  [("kernels of the forward and reverse pass", L+"mace_kokkos.cpp"), ("grow-only work arrays", L+"mace_kokkos.cpp")],
  [("node_energies, node_forces, H1, A0, A1, Phi1 ...", "device arrays kept between calls", L+"mace_kokkos.hpp")],
  ["MACEKokkos.node_energies / node_forces", "MACEKokkosFloat.node_energies / node_forces"])

prop("C19", "The Kokkos components compute the same functions as the plain ones",
  "The Kokkos spline, spline set, multilayer perceptron, multivariate polynomial and ZBL classes satisfy, through every evaluation method they offer and for every iteration order and team size of their kernels (unordered iterations never update the same number except atomically), the same rules as the plain classes: Hermite interpolation with exact derivatives and rejection of arguments outside the domain, network value and Jacobian row by row for any batch, polynomial value and gradient in the graph and the simple evaluation alike, and ZBL energy, gradient and accumulation over a neighbour list. Results never depend on earlier calls or on what the caller's output buffers held.",
  ["inputs", "schedules", "histories"], "all objects, arguments, batch sizes, call sequences and iteration orders", "The tests of these classes sample a few arguments on one back end.",
  [L+"cubic_spline_kokkos.cpp", L+"cubic_spline_set_kokkos.cpp", L+"multilayer_perceptron_kokkos.cpp", L+"multivariate_polynomial_kokkos.cpp", L+"zbl_kokkos.cpp"],
  [("kernels of each class", L+"*_kokkos.cpp")], (), ["CubicSplineKokkos, CubicSplineSetKokkos, MultilayerPerceptronKokkos, MultivariatePolynomialKokkos, ZBLKokkos"])

prop("C20", "The calculator gives the same physics with the Kokkos evaluators",
  "The ASE calculator with the Kokkos evaluators, which it uses by default, returns for every structure and every sequence of structures one energy per atom, the total energy, forces that are its negative gradient with zero sum, and the stress, in double precision or, if float32 is asked for, to single precision, independent of the sizes of the structures it saw before.",
  ["inputs", "histories", "configurations"], "all structures, sequences of structures, precisions and back ends", "Tests with Kokkos need trained models and evaluate one structure per calculator.",
  [S+"symmetrix_calc.py", "symmetrix/source/cpp/mace_kokkos.cpp"], [("use of containers that only grow", S+"symmetrix_calc.py")], (), ["Symmetrix.calculate results"])
prop("C21", "The Kokkos pair style gives the same results on any decomposition and device",
  "For every configuration, the LAMMPS pair styles symmetrix/mace/kk (and, to single precision, symmetrix/mace/float32/kk) give in each communication mode, for every assignment of atoms to processors, every ghost-atom layout and every sequence of steps the total energy, per-atom energies of this step only, forces (added to those already there) and virial of the whole system, whatever the order in which the iterations of their kernels run and the size of their teams, whether or not the device has memory of its own, whether LAMMPS packs messages on the device or on the host, and whether LAMMPS finds atoms through an array or a hash.",
  ["schedules", "inputs", "histories", "configurations"], "all distributions of atoms over ranks, ghost orders, neighbour-list orders, flag combinations, histories of steps, iteration orders, memory models and communication settings", "There are no tests of the Kokkos pair style that run without a LAMMPS build and trained models.",
  [P+"pair_symmetrix_mace_kokkos.cpp", P+"pair_symmetrix_mace_kokkos.h", "symmetrix/source/cpp/mace_kokkos.cpp"],
  [("three compute paths and forward/reverse communication of features, on the device and through the host", P+"pair_symmetrix_mace_kokkos.cpp")],
  [("H1, H1_adj, k_eatom", "arrays kept between steps", P+"pair_symmetrix_mace_kokkos.h")],
  ["eng_vdwl, eatom, atom->f, virial after compute()"])

prop("C22", "Kokkos pair style input is validated and mapped to the right types",
  "The pair style symmetrix/mace/kk accepts exactly the documented style arguments and coefficient lines, maps every atom type to the element named for it for any number and order of types, requests the neighbour list and communication cutoff its mode needs, follows later changes of mode, model and settings, and stops with an error on unknown modes, unknown or missing elements, elements the model does not have, wrong counts, a missing atom map or newton setting, instead of computing with a wrong mapping.",
  ["inputs", "histories", "configurations"], "all argument lists, element orders, numbers of types and processors, and command sequences", "There are no tests of the Kokkos pair style that run without a LAMMPS build and trained models.",
  [P+"pair_symmetrix_mace_kokkos.cpp"], [("settings/coeff/init_style/init_one", P+"pair_symmetrix_mace_kokkos.cpp")],
  [("mace_types", "atom type to model element", P+"pair_symmetrix_mace_kokkos.h"), ("mode", "communication mode", P+"pair_symmetrix_mace_kokkos.h")],
  ["Pair::settings, coeff, init_style, init_one"])

prop("C23", "Converting a trained network keeps its energies",
  "For every supported trained network (two interaction layers of the plain or density-scaled kinds, l_max 3, with or without ZBL repulsion, one or several heads) and every selection of its elements - given as numbers, digits or symbols in any order, or left out to mean all - the file written by extract_mace_data or the symmetrix_extract_mace command lists the selected elements by increasing atomic number, loads in the evaluator, and gives every structure of those elements the energies of the original network with the requested head (by default the first that is not the pre-training head). Networks of other kinds, read-outs that cannot be rewritten (rank-deficient mixing), elements the network does not have, unknown symbols and unknown heads are refused with an error instead of being converted.",
  ["inputs", "configurations", "histories"], "all networks of the supported kinds, element selections, heads, table sizes and sequences of conversions in one process",
  "There is no test of the conversion that runs without torch, e3nn, mace and downloaded models; those compare one structure of one model, so element subsets and orders, unsorted element tables, other heads, L_max, density scaling and every refusal are never exercised.",
  [S+"extract_mace_data.py", S+"cli/extract_mace.py"],
  [("fusing of weights and normalisations, sparse products, coupling tables, splines", S+"extract_mace_data.py extract_mace_data"), ("command line", S+"cli/extract_mace.py main")],
  [("output", "contents of the model file", S+"extract_mace_data.py")],
  ["model file written -> MACE.compute_node_energies_forces"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for r in ROWS:
        f.write(json.dumps(r) + "\n")
