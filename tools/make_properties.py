#!/usr/bin/env python3
"""Writes properties.jsonl (the text of the properties lives here, once)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})


DM, PR, CT = "acetn/renormalization/directional_mover.py", "acetn/renormalization/projectors.py", "acetn/renormalization/ctmrg.py"
TN, ST, IP, CF, BO = ("acetn/ipeps/tensor_network.py", "acetn/ipeps/site_tensor.py", "acetn/ipeps/ipeps.py", "acetn/ipeps/ipeps_config.py", "acetn/ipeps/bond.py")
ME, RD = "acetn/measurement/measure.py", "acetn/measurement/rdm.py"
EV, GA, FU, FF, AL, SU, LT, TU = ["acetn/evolution/%s.py" % f for f in ("evolve", "gate", "full_update", "fast_full_update", "als_solver", "simple_update", "lambda_tensors", "tensor_update")]
MO, PM, MF = "acetn/model/model.py", "acetn/model/pauli_matrix.py", "acetn/model/model_factory.py"
DI = "acetn/utils/distributed.py"

p("C01", "Absorbing a row or column is lossless when chi is large enough",
  "A directional boundary move (left, up, right, down) absorbs exactly the addressed column or row of site tensors into the boundary of the neighbouring one: if chi is at least the old boundary dimension times D^2 and the environments are non-singular, every open segment corner-edges-corner of the new boundary equals, up to one positive factor, the old segment with the column's tensors contracted in. The move changes no other tensor of the network. This holds for any unit cell, projector type, SVD type and real or complex tensors.",
  ["inputs", "configurations"], "all unit cells, site and boundary tensors, directions, projector/SVD options and data types with chi >= chi0*D^2",
  "the tests only check that moves run and return tensors of the right type on one 2x2 cell",
  [DM, PR], [("projector pairs multiply to the identity on the cut", PR), ("index bookkeeping of rows/columns with periodic wrap", DM)], ["net[site]['C'], net[site]['E'] after a move"])
p("C02", "Boundary truncation is optimal for the configured system",
  "When a boundary bond has to be truncated, the pair of projectors inserted on it has bond dimension at most chi and reproduces the contraction it is computed from (the half system of two corners, or the full system of four) with the smallest possible Frobenius error for that dimension (Eckart-Young); with the randomized SVD the error is exact when the rank fits and otherwise within a small factor of the optimum. Singular values below the configured relative cutoff, and only those, are dropped in addition to the limit chi.",
  ["inputs", "configurations"], "all environments, unit cells, directions, chi, cutoffs, projector and SVD options, real and complex tensors",
  "the tests only look at the type and shape of the projectors, for real tensors",
  [PR, "acetn/linalg/"], [("P1 = R1^T conj(U) s^-1/2, P2 = R2 V s^-1/2", PR)], ["ProjectorCalculator.calculate"])
p("C03", "Converged CTMRG gives the exact values of the infinite lattice",
  "For a network whose infinite-lattice expectation values are known independently (product states, dimer coverings, decoupled matrix-product rows or columns, the Ising-model PEPS), renormalizing the boundary and measuring gives those values for every site and bond of the unit cell, for any cell size, projector type, SVD type and data type.",
  ["inputs", "configurations"], "solvable states with random parameters on all small unit cells, all boundary options",
  "two ground-state energies are compared at one unit cell; complex tensors, other cells and most options are never measured",
  [CT, DM, PR, ME, RD], [("sweep over all four directions and all columns/rows", CT)], ["Ipeps.renormalize", "Ipeps.measure"])
p("C04", "Boundary tensors stay consistent, bounded by chi and normalized",
  "After any history of set_chi, renormalize and evolve calls, adjacent corner and edge tensors of neighbouring sites have matching bond dimensions, and their site legs match the site tensors. After at least one renormalization sweep no boundary bond exceeds the current chi, every corner and edge tensor is finite with norm one, and renormalizing never alters a site tensor.",
  ["histories", "configurations"], "all sequences of set_chi/renormalize/evolve/set tensors on all cells and options",
  "no test changes chi after construction or checks shapes after a sequence of operations",
  [DM, IP, ST], [("normalization in renormalize_*", DM), ("min(chi, rank) truncation", PR)], ["net[site]['C'/'E'] shapes and norms"])
p("C05", "Measured local states equal the exact contraction of the network",
  "For any site and boundary tensors, the one- and two-site density matrices underlying measurements are exactly the contraction of ket, bra and the surrounding boundary tensors, for both bond orientations, any unit cell (including wrap-around bonds), physical dimension, unequal boundary dimensions, and real or complex data. For a boundary obtained from a state they are Hermitian and positive, the bond seen from either end is the same state, and once converged the one-site states are the marginals of the two-site states.",
  ["inputs", "configurations"], "all tensors, sizes, cells and data types", "tests check only shapes of one random network",
  [RD, ME], [("einsum contraction, blocked over the physical index", RD)], ["Ipeps.measure", "RDM[site]", "RDM[bond]"])
p("C06", "Measured averages are traces with the right weights",
  "measure() returns, for every named observable, the mean over all sites (or over all bonds) of Tr(rho O), and as Energy the sum of all one-site and two-site Hamiltonian terms divided by the number of sites, each operator being the one the model gives for that very site or bond. It is linear in the operators, gives 1 for the identity, lies within the operator's spectral range, accepts operators as tensors (matrix or four-index form) or objects with a matrix, and does not depend on the overall scale of the tensors.",
  ["inputs", "configurations"], "all site- and bond-dependent operator assignments, cells, physical dimensions, states", "tests only use the built-in uniform models' final energy",
  [ME], [("sum over site_list/bond_list and division", ME)], ["Ipeps.measure"])
p("C07", "Observables do not depend on the gauge or local basis",
  "Inserting an invertible matrix and its inverse on any bond of the network, rescaling any site tensor, or rotating the physical basis of every site together with the operators does not change what renormalize followed by measure returns.",
  ["inputs", "configurations"], "all states, gauge and basis transformations, cells and options", "no test transforms a state",
  [CT, PR, RD, ME], [("contraction is gauge covariant; SVD truncation is covariant under unitaries", PR)], ["Ipeps.renormalize", "Ipeps.measure"])
p("C08", "Observables follow translations, rotations and reflections",
  "Translating, rotating by 90 degrees or reflecting all site tensors of the unit cell (with their legs), or complex-conjugating them, gives the correspondingly translated, rotated, reflected or conjugated local states and the same averages after renormalization; all four directions and all positions in the cell are treated alike.",
  ["inputs", "configurations"], "all states, cells (including non-square), symmetry operations and options", "no test compares directions or positions",
  [CT, DM, PR, RD], [("leg permutation by bond direction", ST)], ["Ipeps.renormalize", "Ipeps.measure"])
p("C09", "The bond list is exactly the periodic square lattice",
  "For every unit cell size the network has each site once and exactly one bond for every pair (site, right neighbour) and (site, upper neighbour) with periodic wrap, its direction matching both the coordinates and the tensor leg through which the two sites are correlated. The set stays the same through copying, saving, loading, evolving and renormalizing, and model.bond_direction names the direction accordingly.",
  ["inputs", "histories"], "all cell sizes and operation histories", "one 2x2 list is compared with a literal",
  [TN, BO, MO], [("build_bond_list", TN)], ["net.bond_list", "net.site_list", "Model.bond_direction"])
p("C10", "Trotter gates are exp(-dtau*h) with every term exactly once",
  "For any model the gate of a bond is exp(-dtau*h) of its two-site Hamiltonian plus one quarter of the one-site Hamiltonian of each end, so that over one pass through all bonds every two-site term and every one-site term is applied exactly once, also when terms depend on site or bond, are missing on some sites, or are given as plain tensors. Building gates does not modify the model's operators, and gates built for one model are unaffected by gates built later for another.",
  ["inputs", "programs"], "all models (site/bond dependent, partial, tensor or matrix-object operators), dtau, cells, data types", "no test looks at a gate",
  [GA], [("matrix_exp", GA)], ["Gate(model, dtau, bonds, sites)[bond]"])
p("C11", "Bond updates are exact when no truncation is needed",
  "If the gate times the pair of site tensors can be represented with the given bond dimension, one full or simple update of a bond returns a pair of site tensors whose contraction over the bond equals gate times old pair up to a positive (for complex tensors: complex) factor, for every bond direction, position, environment, solver option and data type. No other site tensor changes.",
  ["inputs", "configurations"], "all site tensors, gates of sufficiently low operator rank, environments, options", "tests only check that the update returns normalized tensors",
  [FU, FF, AL, SU, TU], [("QR split, ALS, recomposition", FU)], ["FullUpdater.tensor_update", "Ipeps.evolve"])
p("C12", "Truncating full updates are optimal in the environment's metric",
  "When truncation is needed, the full update's result is at least as close to gate times old pair, in the norm defined by the surrounding boundary tensors, as the plain truncated SVD, and no alternating re-optimization of either reduced tensor improves it noticeably. The distance achieved does not depend on the solver method (cholesky or pinv) or on gauge fixing.",
  ["inputs", "configurations"], "all pairs, gates, positive environments and solver options, real and complex", "ALS is tested on one real random problem and only against its own cost function",
  [AL, FU], [("alternating least squares", AL), ("gauge fixing", FU)], ["FullUpdater.tensor_update", "ALSSolver.solve"])
p("C13", "The positive approximation is positive, minimal and terminates",
  "For any Hermitian norm tensor, of any scale, signature or rank and in single or double precision, the positive approximation terminates and returns a factor Z with Z Z^dagger equal to the norm tensor plus a multiple of the identity; the multiple is zero when the spectrum already is above the cutoff and otherwise comparable to the most negative eigenvalue. Gauge fixing only changes the basis: it returns the transformed norm and target with unchanged overlaps and the inverse transformations.",
  ["inputs"], "all Hermitian norm tensors, cutoffs and data types", "never called directly by a test, only on well-behaved norms",
  [FU], [("positive_approx", FU), ("gauge_fix", FU)], ["positive_approx", "gauge_fix"])
p("C14", "The simple update is the standard lambda-weighted algorithm",
  "evolve() with the simple update produces, up to gauge and scale, the same state as a textbook implementation: for each bond in the network's order (reversed every other step) absorb the surrounding bond weights, apply the gate, truncate by SVD to bond dimension D, make the normalized singular values the new weight of that bond, and remove the surrounding weights; weights start at one.",
  ["inputs", "configurations", "histories"], "all states, models, cells, D, step counts and data types", "no test runs the simple update",
  [SU, LT, TU, EV], [("LambdaTensors.absorb/strip", LT)], ["Ipeps.evolve with update_type simple"])
p("C15", "Imaginary-time evolution is exact on solvable Hamiltonians",
  "For Hamiltonians whose imaginary-time evolution is known exactly (one-site fields, decoupled dimers, commuting Ising couplings), evolving any starting product state for n steps of dtau gives the expectation values of exp(-n*dtau*H) applied to it, with both update types and on every unit cell of at least two sites per direction. For any model, evolving never yields an energy below a rigorous lower bound, and with small steps lowers the energy of the starting state.",
  ["inputs", "configurations", "histories"], "random solvable and general Hamiltonians, starting states, dtau, steps, cells and options", "only two final energies of two models are compared",
  [EV, GA, FF, FU, SU, CT, ME], [("evolve loop over bonds, boundary re-absorbed after every bond", EV)], ["Ipeps.evolve", "Ipeps.measure"])
p("C16", "Randomized SVDs return a valid, near-optimal factorization",
  "The three low-rank SVDs return, for any matrix or product of two or four matrices, U and V with orthonormal columns, non-negative decreasing singular values never above the true ones, factors that satisfy U S V^dagger = projection of the product (exactly the product when its rank fits q, up to rounding), with q limited by the matrix dimensions. The fused versions agree with the explicit product, and inputs are not modified; real and complex data of any shape.",
  ["inputs"], "all shapes, ranks, spectra, q, iteration counts, data types", "a few fixed shapes with well-conditioned random matrices are sampled",
  ["acetn/linalg/"], [("range finder with power iterations", "acetn/linalg/")], ["svd_lowrank", "fused_matmul_svd_lowrank", "fused_3matmul_svd_lowrank"])
p("C17", "Operator algebra equals the true Pauli algebra",
  "Any expression built from Pauli matrices with products, sums, differences, negation and scalar factors (Python, numpy or torch numbers, complex ones with complex data types) has the matrix of the corresponding complex Pauli expression; with real data types expressions with an even number of Y factors per term give the exact real matrix, and those with an odd number give it divided by i. In-place operators agree with the plain ones, operands are not modified, sums with something that is no operator are not silently empty, and the built-in Ising and Heisenberg models give the documented Hamiltonians for all parameters, including documented defaults.",
  ["inputs", "programs"], "all operator expressions and parameters, real and complex types", "a few two-factor products are tested",
  [PM, "acetn/model/models/"], [("sign of real-valued Y products tracked by the key", PM)], ["PauliMatrix operators", "model Hamiltonians"])
p("C18", "Saving and loading round-trips the network, with no side effects",
  "Loading a saved file into a network of the same layout reproduces every site, corner and edge tensor exactly (converted to the target's data type) and hence all measurements; the loaded network shares nothing with the file or the saved network, continues from the loaded state when evolved, and keeps its own configuration. Saving changes nothing about the network being saved, and saving again overwrites the file with the new state.",
  ["inputs", "histories"], "all networks, data types, boundary sizes, histories of save/load/modify", "one default network is saved and loaded once",
  [TN, ST, IP], [("save", TN), ("load", TN)], ["Ipeps.save", "Ipeps.load"])
p("C19", "Networks, copies and configurations are independent",
  "Two networks never influence each other: after any interleaving of creating networks (also from the same config dictionary, or from another network), copying, converting, evolving, renormalizing, setting tensors, chi, models or model parameters, saving and loading, every network has exactly the tensors, dimensions and model its own operations gave it. A copy or conversion has identical contents at that moment, and the user's config and parameter dictionaries are never modified.",
  ["histories"], "all interleavings of operations on several networks in one process", "tests use one network at a time",
  [TN, ST, IP, CF, MF, GA], [("per-instance tensors, copied configuration", TN)], ["Ipeps, TensorNetwork.copy/to, set_model, set_chi"])
p("C20", "Distributed runs give the serial result for any number of processes",
  "Running the same calculation on any number of processes from 2 up to the available devices terminates, leaves all processes with the same tensors, and gives the same measured values as the serial run, for every unit cell, whether or not the number of rows and columns divides evenly among the processes.",
  ["configurations", "schedules"], "process counts 2..8, all small cells, options and boundary sizes of unequal shapes", "the distributed tests are skipped because no process group exists",
  [DM, DI, FF, IP], [("all_gather of projectors", DI), ("assignment of rows/columns to ranks", DM), ("broadcast of updated tensors", FF)], ["Ipeps.renormalize/evolve/measure under RANK/WORLD_SIZE"])
p("C21", "The C++ backend solves the same problem as the Python backend",
  "For every bond-update problem the compiled ALS solver returns, for the same initial tensors and options, the same updated pair as the Python solver up to rounding: same linear systems, same methods (cholesky, pinv), same convergence rule, for all reduced shapes and data types it accepts.",
  ["inputs", "configurations"], "all reduced-tensor shapes, norms, targets, methods, tolerances, iteration counts", "all tests of the extension are skipped without a GPU",
  ["csrc/", AL], [("als_solve", "csrc/evolution/als_solve.cpp"), ("contractions", "csrc/evolution/als_tensors.cpp")], ["_C_cutensor.als_solve compared with ALSSolver"])
p("C22", "Configuration defaults, fallbacks and every documented option work",
  "Every documented option has its documented default when left out, is honoured when given, and every combination of documented options and data types runs a full evolve-renormalize-measure cycle to finite values which agree with the exact result on a solvable problem. Unavailable devices and backends fall back to cpu and torch, and unknown option names, projector types, update types, model names and non-model classes are rejected with an error.",
  ["configurations"], "all combinations of documented options, data types, partial configurations", "only a handful of combinations is ever run",
  [CF, IP, MF, EV, PR], [("dataclass defaults", CF), ("validate_backend", CF)], ["Ipeps(config)"])
p("C23", "Measuring is read-only and runs are reproducible",
  "measure() changes no tensor, dimension, model or random state and returns the same values when repeated; renormalizing changes no site tensor; evolving by zero steps, or with dtau=0, leaves the physical state unchanged. Running the same program twice with the same random seed, at whatever log level, gives identical tensors and results, and with full-rank SVDs renormalization does not depend on the random seed at all.",
  ["histories", "inputs"], "all states, models, option combinations and operation orders", "no test repeats an operation",
  [ME, EV, CT, IP], [("measurement builds new tensors only", ME)], ["Ipeps.measure/evolve/renormalize"])
p("C24", "Networks start in the requested product state",
  "The first evolve() of a fresh network starts from the product state given by the model for each site, up to the documented small noise: site tensors are normalized, dominated by the requested amplitudes at the trivial bond indices, and measured one-site states agree with it; without a model, a new network is in the uniform first basis state. This holds for any physical and bond dimension, site-dependent and complex states.",
  ["inputs", "configurations"], "all state maps, dimensions, cells, data types", "only the default state of one size is looked at",
  [ST, TN, IP, MO], [("initialize_site_tensor", ST)], ["Ipeps.evolve(steps=0)", "Ipeps()"])
p("C25", "Evolution continues from the existing state",
  "evolve() replaces the site tensors by the model's product state only on a fresh network; a network that was evolved before, loaded from a file, copied from another network, or given explicit tensors through another network continues from its tensors. Splitting an evolution into consecutive calls gives the same result as one call whenever the update is exact, and changing model parameters or chi between calls takes effect from then on without resetting the state.",
  ["histories"], "all histories of create/load/evolve/set_chi/set_model_params", "no test evolves twice or after loading",
  [IP, TN], [("site_states_initialized flag", IP)], ["Ipeps.evolve"])
p("C26", "Evolution does not depend on units, bases, number format or seed",
  "Starting from the same state, evolve() leads to the same one- and two-site states and energy when the Hamiltonian is given in another unit of energy (h*f with dtau/f), when constants are added to its terms, when one-site terms are written as part of the two-site terms of the four bonds of a site, when every site uses another local basis, when everything is complex-conjugated, when real problems are run with a complex data type, when single instead of double precision is used (up to single-precision accuracy, with default options) and when another random seed is used. This holds with truncating full and simple updates, for every unit cell, dimension and option, as long as the boundary dimension is large enough for the result not to depend on rounding.",
  ["inputs", "configurations"], "all states, Hamiltonians, cells, units, offsets, bases, data types and seeds", "no test compares two evolutions",
  [EV, GA, CT, PR, AL], [("gates and updates are covariant under these changes", EV)], ["Ipeps.evolve", "Ipeps.measure"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
for q in P:
    assert len(q["title"]) <= 80, q["title"]
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
