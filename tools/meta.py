"""Writes properties.jsonl and MANIFEST.json (run by hand after changing the list of properties)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
P = []
NA = {}


def prop(id, title, statement, over, text, why, files, mechanism, note, observe=None, state=None, hook=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                   anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                            **({"observe_at": observe} if observe else {}),
                            **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {}),
                            "hook_needed": hook}), note))


R, E, M, L, I = "acetn/renormalization/", "acetn/evolution/", "acetn/measurement/", "acetn/linalg/", "acetn/ipeps/"
GEN = ("The existing tests run one or two seeds on a 2x2 cell and compare final energies or shapes; they never quantify over "
       "tensor entries, cell shapes or direction.")

prop("C01", "Lattice geometry is a consistent periodic square lattice",
     "For every unit cell the network has exactly one site per coordinate, every site's neighbours obey the periodic square "
     "lattice (left/right change x, up/down change y, opposite directions invert each other) and the list of bonds contains "
     "each nearest-neighbour bond exactly once, oriented from its first to its second site. Each site of each bond's endpoints "
     "is thus covered by exactly four bonds.",
     ["configurations"], "all unit cells nx, ny within the bound (symbolic sizes and coordinates)",
     "Tests look at the 2x2 cell only, where left/right and up/down neighbours coincide.",
     [I + "tensor_network.py", I + "bond.py"], [("bond list construction", I + "tensor_network.py")],
     "unit cells up to 6x6 (quick), sizes and coordinates symbolic")
prop("C02", "Separate networks never share state",
     "Creating, copying, loading or modifying one network (tensors, bond dimension, model parameters) never changes a tensor, "
     "dimension or configuration value of another network or of the configuration objects the user passed in. A copy equals "
     "its original until one of them is modified.",
     ["histories", "inputs"], "all tensor contents; all short sequences of create / copy / modify operations on two networks",
     "Tests create one network at a time and never inspect an older one afterwards.",
     [I + "tensor_network.py", I + "site_tensor.py", I + "ipeps.py"], [("per-instance tensor store", I + "tensor_network.py"),
      ("cloning setters", I + "site_tensor.py")], "generic tensors, operation sequences chosen by the solver")
prop("C03", "Saving and loading restores the state exactly",
     "Saving a network and loading it into a fresh or used network of the same unit cell restores every site and boundary "
     "tensor and every site's dimensions exactly, in the dtype and device of the loading network, also when the saved dimensions "
     "differ from its configuration. Saving changes nothing, and a loaded network counts as initialised.",
     ["inputs", "configurations"], "all tensor contents, cell shapes, bond and boundary dimensions and dtypes within the bounds",
     "No test round-trips distinguishable tensors of every kind on every site.",
     [I + "tensor_network.py", I + "site_tensor.py"], [("save / load", I + "tensor_network.py")], "generic tensors")
prop("C04", "Evolution starts from the state the user supplied",
     "Evolving a network that was built from, copied from or loaded with an existing state continues from exactly that state; "
     "only a fresh network without a supplied state is first set to the model's initial product state, once. A second call "
     "of evolve never re-initialises, also when another model, parameter or boundary dimension was set in between.",
     ["histories", "inputs"], "all state tensors; all orders of construct / load / evolve within two calls",
     "Tests only evolve fresh networks, and only look at the final energy.",
     [I + "ipeps.py", I + "tensor_network.py"], [("initial state flag", I + "ipeps.py")], "generic tensors; histories chosen by the solver")
prop("C05", "Trotter gates implement the model's Hamiltonian",
     "The product of all exponents of the two- and one-site gates of one time step equals -dtau times the model's total "
     "Hamiltonian on the unit cell: every bond term once and every one-site term once, also when only some sites have "
     "one-site terms or terms differ between sites. Each gate is the exact matrix exponential of its exponent.",
     ["inputs", "configurations"], "all Hamiltonian matrices (generic symbolic), dtau, cell shapes, and all patterns of present/absent one-site terms",
     "Tests use the same one-site term on every site of the built-in Ising model and check the energy to 1e-2.",
     [E + "gate.py"], [("one-site term split over four bonds", E + "gate.py"), ("matrix exponential", E + "gate.py")],
     "generic Hamiltonians, all presence patterns of one-site terms")
prop("C06", "Using a model never alters its operators",
     "Building gates, evolving and measuring leave every operator returned by a model bit-for-bit unchanged, so models may cache "
     "and reuse their matrices, and repeating an operation gives the same result. Operators may be given as library operator "
     "objects or as plain tensors.",
     ["inputs", "histories"], "all operator matrices; repeated use of one cached model object",
     "Built-in models rebuild their matrices on every call, which hides any in-place change.",
     [E + "gate.py", M + "measure.py"], [("gate construction", E + "gate.py"), ("operator access", M + "measure.py")], "generic operators")
prop("C07", "Time evolution applies every bond gate once per step",
     "Evolving for n steps renormalises the environment before and after, and in each step updates every bond of the cell "
     "exactly once with its own gate, traversing the bonds in alternating order in successive steps. The gates used are those "
     "of the model and time step passed by the caller.",
     ["configurations", "histories"], "all cell sizes and step counts within the bounds (symbolic), both update schemes, with and without workers",
     "Tests only look at the energy after a few hundred steps.",
     [E + "evolve.py", I + "ipeps.py"], [("step loop", E + "evolve.py")], "cells up to 3x3, steps symbolic up to 3")
prop("C08", "One-site density matrices contract the complete environment",
     "For every site tensor and boundary tensors, the one-site density matrix equals the exact contraction of the double-layer "
     "site tensor with its four corners and four edges, bra index first.",
     ["inputs"], "all complex tensor entries at fixed small dimensions, all sites",
     GEN, [M + "rdm.py"], [("contraction", M + "rdm.py")], "chi, D, p up to 3")
prop("C09", "Two-site density matrices contract the complete environment",
     "For every bond in each of the four orientations the two-site density matrix equals the exact contraction of both "
     "double-layer site tensors with the ten surrounding boundary tensors, indices ordered (bra1, bra2, ket1, ket2).",
     ["inputs", "configurations"], "all complex tensor entries at fixed small dimensions, all bonds and orientations", GEN,
     [M + "rdm.py", I + "site_tensor.py"], [("permutation by bond direction", I + "site_tensor.py"), ("contraction", M + "rdm.py")], "chi, D, p up to 3")
prop("C10", "Measured values are averages of normalised expectation values",
     "The reported energy is the sum of all one- and two-site Hamiltonian expectation values, each normalised by its density "
     "matrix's trace, divided by the number of sites; every observable is the average over all sites (bonds) of its normalised "
     "expectation value. Site- and bond-dependent operators are evaluated with their own matrix.",
     ["inputs", "configurations"], "all tensor entries and operator matrices; presence/absence of one-site terms; cell shapes", GEN,
     [M + "measure.py"], [("averages", M + "measure.py")], "cells up to 3x2")
prop("C11", "A boundary move absorbs exactly one row or column",
     "A directional move replaces exactly the boundary tensors facing the absorbed column or row by the exact contraction of "
     "the neighbouring boundary tensors, site tensors and projectors, normalises each to one, and touches nothing else. New "
     "tensors are computed from the values before the move.",
     ["inputs", "configurations"], "all tensor entries and projectors (also of bond-dependent rank), all four directions, every line, cells up to 3x3", GEN,
     [R + "directional_mover.py", I + "site_tensor.py"], [("moves", R + "directional_mover.py")], "projectors are generic stand-ins")
prop("C12", "A renormalisation run is complete sweeps over the cell",
     "A run with n steps absorbs every column from the left and right and every row from above and below exactly n times, "
     "always continuing with the adjacent line. This holds for every unit cell, with and without distributed workers.",
     ["configurations"], "all cell sizes and step counts within the bounds (symbolic)", "Tests use one 2x2 cell.",
     [R + "ctmrg.py"], [("sweep loops", R + "ctmrg.py")], "sizes, step counts and the line index are solver variables")
prop("C13", "Projectors resolve the identity on the truncated bond",
     "For every environment, each projector pair multiplies to the identity on the retained space and is built from the two "
     "halves of the surrounding system and the leading singular vectors between them, for both projector types and both "
     "decomposition types. The retained rank is the boundary dimension or the number of singular values above the relative "
     "cutoff, whichever is smaller.",
     ["inputs", "configurations"], "all tensor entries, singular spectra, cutoffs; four configurations, four directions", GEN,
     [R + "projectors.py"], [("projector construction", R + "projectors.py")], "singular values are exact symbolic reals")
prop("C15", "Distributed renormalisation equals the sequential one",
     "For every number of workers and every unit cell, a boundary move pair executed by several workers leaves all workers with "
     "identical boundary tensors, equal to those of the sequential moves with the same projectors, and all workers take part in "
     "the same collective operations in the same order.",
     ["schedules", "inputs", "configurations"], "all tensor entries; 2-8 workers; cells up to 3x3; every worker rank", "The tests never run with more than one worker.",
     [R + "directional_mover.py"], [("gather of projectors", R + "directional_mover.py")], "collectives replaced by an exact model")
prop("C16", "Randomised decompositions project the exact product",
     "The low-rank decompositions (plain and of fused products) return U, S, V of the exact matrix product projected onto an "
     "orthonormal basis that was sampled from the product's range with the requested number of power iterations; inputs stay "
     "unmodified and shapes are min(q, m, n).",
     ["inputs", "configurations"], "all real and complex matrices of the listed shapes, all random test matrices, q and power iteration counts", GEN,
     [L + "svd_lowrank.py", L + "fused_matmul_svd_lowrank.py", L + "fused_3matmul_svd_lowrank.py"], [("range finder", L)], "matrices up to 8x8")
prop("C17", "Splitting site tensors around a bond is exact",
     "Every bond update acts only on the bond's own two legs and physical indices: replacing the bond's reduced tensors by "
     "themselves returns both site tensors unchanged (up to the scheme's normalisation), for every bond orientation and every "
     "tensor. Tensors of other sites are never modified by a bond update.",
     ["inputs", "configurations"], "all tensor entries, four bond orientations, dimensions within the bound", GEN,
     [E + "tensor_update.py"], [("permute and decompose", E + "tensor_update.py")], "decompositions replaced by their contracts")
prop("C18", "The bond's norm tensor is its exact environment",
     "The norm tensor used by the full update equals the exact contraction of the bond's ten surrounding boundary tensors with "
     "the isometric parts of both site tensors, for every orientation and both contraction schedules.",
     ["inputs", "configurations"], "all tensor entries, four orientations, both contraction schedules", GEN,
     [E + "full_update.py"], [("norm tensor contraction", E + "full_update.py")], "chi, D, p up to 3")
prop("C19", "Positive approximation keeps the norm tensor's spectrum",
     "The norm tensor is replaced by a Hermitian positive one with the same eigenvectors, whose eigenvalues are the original "
     "ones plus the smallest documented shift that makes them all at least the cutoff; a norm tensor that is already positive "
     "is unchanged. When an eigenvalue decomposition fails, the singular value decomposition takes its place in the same order.",
     ["inputs", "fault_sequences"], "all Hermitian norm tensors (symbolic spectra), cutoffs, with and without decomposition failure", GEN,
     [E + "full_update.py"], [("positive approximation", E + "full_update.py")], "eigenvalues are exact symbolic reals")
prop("C20", "Gauge fixing does not change the update's target",
     "Fixing the gauge of a bond multiplies norm tensor and reduced tensors by mutually inverse matrices, so the cost of every "
     "candidate update is unchanged, and after the update the gauge is undone exactly.",
     ["inputs"], "all positive norm tensors and reduced tensors, dims within the bounds", GEN,
     [E + "full_update.py"], [("gauge fix", E + "full_update.py")], "QR and pseudo-inverse replaced by their contracts")
prop("C21", "The alternating least squares step solves the normal equations",
     "Each half step of the bond optimisation solves the normal equations of the exact distance between the updated pair and the "
     "gate-evolved pair in the norm tensor's metric, and the iteration stops on convergence or after the requested number of "
     "sweeps. The result has the requested bond dimension whatever solver method is configured, including when the first "
     "factorisation fails.",
     ["inputs", "fault_sequences", "configurations"], "all norm tensors, targets and iterates; both methods; injected factorisation failure; iteration counts", GEN,
     [E + "als_solver.py"], [("normal equations", E + "als_solver.py")], "dims within the bound")
prop("C22", "Balancing after an update preserves the updated pair",
     "After a full update the two site tensors carry, up to one positive factor, exactly the optimised pair with its weight "
     "split evenly over both (equal singular weights on the shared leg), and each is normalised.",
     ["inputs"], "all optimised pairs, dims within the bound", GEN,
     [E + "full_update.py", E + "tensor_update.py"], [("balancing", E + "full_update.py")], "decompositions replaced by their contracts")
prop("C23", "A simple update applies the gate and truncates optimally",
     "Updating a bond with the simple scheme forms the pair weighted by all surrounding bond weights, applies the bond's gate "
     "exactly, keeps the leading singular vectors up to the bond dimension (all weights are one at the start of an evolution), stores their normalised weights on that bond only "
     "and removes the other bonds' weights again. This holds for real and complex tensors and every orientation.",
     ["inputs", "configurations"], "all tensors, gates and bond weights; four orientations; real and complex", GEN,
     [E + "simple_update.py", E + "lambda_tensors.py"], [("simple update", E + "simple_update.py")], "decompositions replaced by their contracts")
prop("C24", "The compiled solver equals the torch solver",
     "With the cuTENSOR backend the compiled extension (csrc) returns, for every start, metric and target, the same reduced tensors "
     "as the torch solver: same normal equations, regularisation, pseudo-inverse, monitored cost, stopping rule and number of "
     "iterations, the same fallback when the Cholesky factorisation fails, in the precision of the tensors, whatever their memory "
     "layout and even if a workspace allocation fails; its inputs are left unmodified.",
     ["inputs", "configurations", "fault_sequences"], "all tensors of the four number types, tolerances, iteration counts, failing factorisations",
     "The extension needs a GPU, so no test runs it.", ["csrc"], [("solver loop", "csrc/evolution/als_solve.cpp"), ("contractions", "csrc/evolution/als_tensors.cpp"),
     ("plans", "csrc/linalg/contraction.h"), ("linear solve", "csrc/linalg/cholesky_solve.h")], "the closed GPU libraries are replaced by their documented contracts")
prop("C25", "Operator algebra represents the intended physical operators",
     "Sums, differences, negations, scalings and tensor products of Pauli operators equal the corresponding complex matrices; "
     "with a real dtype every product with an even number of Y factors still equals the true (real) matrix, whichever "
     "operators it is combined with and in whatever order it was built.",
     ["programs", "inputs"], "all expressions up to the depth bound over X, Y, Z, I and symbolic scalars; real and complex dtype",
     "Tests check single products of two Pauli matrices only.", ["acetn/model/pauli_matrix.py"], [("Y sign", "acetn/model/pauli_matrix.py")], "")
prop("C26", "Built-in models return the documented Hamiltonians",
     "For all coupling values and every bond the transverse-field Ising and Heisenberg models return exactly the documented "
     "Hamiltonian terms and observables, Hermitian, in the requested dtype, for every orientation of the bond.",
     ["inputs", "configurations"], "all couplings (symbolic reals), bonds, dtypes", "Tests use a single coupling set.",
     ["acetn/model/models/ising.py", "acetn/model/models/heisenberg.py"], [("models", "acetn/model/models")], "")
prop("C27", "Initial tensors represent the requested product state",
     "A freshly initialised site tensor is the requested product state (normalised) plus noise of the requested size, for every "
     "physical and bond dimension and dtype, and the initial boundary tensors have the prescribed shapes and equal the trivial "
     "contraction of the site tensor.",
     ["inputs", "configurations"], "all site states, noise values and dimensions within the bounds", "Tests only check shapes.",
     [I + "site_tensor.py"], [("initialisation", I + "site_tensor.py")], "")
prop("C28", "Configuration options reach the algorithm they name",
     "Every documented configuration option takes effect on the step it names with exactly the value given, defaults apply when "
     "omitted, and unknown options are rejected. Options of one network do not affect another.",
     ["configurations"], "all values of the numeric options (symbolic), all enumerated options", "Tests use a handful of configurations.",
     [I + "ipeps_config.py", E + "evolve.py", R + "ctmrg.py"], [("config dataclasses", I + "ipeps_config.py")], "")
prop("C30", "The fast full update absorbs the updated bond at once",
     "After each bond update the new site tensors are stored and the boundary facing the bond is renewed from both sides by the "
     "two moves that absorb the bond's own columns (rows), with and without distributed workers, and every worker holds the same "
     "updated tensors.",
     ["configurations", "schedules", "inputs"], "all cells, bonds and orientations; 1-4 workers", "Tests only see energies of a 2x2 cell with one worker.",
     [E + "fast_full_update.py"], [("absorption", E + "fast_full_update.py")], "")
prop("C31", "A registered custom model applies to its own network only",
     "Setting a custom model on one network determines that network's Hamiltonian from then on and never changes which model or "
     "parameters another network uses, whatever custom names and order are used; setting a parameter changes only that parameter of "
     "that network. A model passed to a single call is used by that call only.",
     ["histories"], "all short sequences of set-model / set-parameter operations on two networks", "Tests register a single custom model.",
     [I + "ipeps.py", "acetn/model/model_factory.py"], [("model registry", "acetn/model/model_factory.py")], "")

prop("C32", "Processes join a distributed run exactly as their environment says, and stay in it",
     "A process takes part in a distributed run exactly when RANK and WORLD_SIZE are both set and there is more than one worker. Then "
     "its networks carry that rank and number of workers, the process group is set up once with them and with the backend of the "
     "machine, the first worker prints while the others stay silent, and every CUDA worker uses its own device; too few devices or an "
     "unsupported device type are rejected before a group is set up. Otherwise the process is rank 0 of 1 on the configured device "
     "and nothing is set up. Whatever networks are created, copied, replaced and deleted, the process group exists as long as the "
     "process has a network that needs it.",
     ["configurations", "histories"], "every combination of environment, device type, number of devices (symbolic) and existing group; all short histories of networks",
     "The tests never set the environment of a distributed run.",
     ["acetn/utils/distributed.py", I + "ipeps.py"], [("set-up of a worker", "acetn/utils/distributed.py"), ("lifetime of the group", I + "ipeps.py")],
     "torch.distributed and torch.cuda replaced by stand-ins that follow their documentation")
prop("C33", "All workers of a distributed run start from the same network",
     "A network created, initialised for a model or copied during a distributed run is the same on all workers, whatever the states of "
     "their random number generators, and all workers take part in the same collective operations.",
     ["inputs", "schedules", "configurations"], "all noise (different on every worker); 2-8 workers", "The tests never run with more than one worker.",
     [I + "ipeps.py", I + "site_tensor.py"], [("initial noise", I + "site_tensor.py")], "D = 1; collectives replaced by an exact model")
prop("C34", "A requested product state is the state that is measured",
     "On a network whose sites were initialised (without noise) to product states |s>, every one-site observable O measures <s|O|s>/<s|s> on its site "
     "and every bond observable measures its expectation value in |s1>|s2>, for real and complex states and operators.",
     ["inputs", "configurations"], "all complex site states, all matrix elements of the one- and two-site density matrices, every site and bond",
     "Tests use real states and observables only, for which a state and its conjugate cannot be told apart.",
     [I + "site_tensor.py", M + "measure.py", M + "rdm.py"], [("initial site tensor", I + "site_tensor.py"), ("expectation value", M + "measure.py")],
     "states symbolic, boundary that of a product state")

LEVEL_NOTE = ("Bounded: the real Python code runs on symbolic tensors of fixed small shapes and z3 decides every branch and every "
              "asserted identity for all entries; {note}. Trusted: torch's documented kernel contracts (decompositions are replaced by "
              "their contracts), exact arithmetic instead of floating point, the symbolic tensor engine (every verdict is "
              "cross-checked by a concrete run of the same harness).")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p, _ in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p, note in P:
        i = p["id"]
        if os.path.exists(os.path.join(ROOT, "symtn", "props", i + ".py")) and i not in NA:
            checks.append({"property": i, "quick_cmd": f"{PY} -m symtn {i} --tier quick",
                           "thorough_cmd": f"{PY} -m symtn {i} --tier thorough",
                           "evidence_file": f"evidence/{i}.json",
                           "technique": ("symbolic execution of the compiled C++ sources and the Python solver" if i == "C24" else "symbolic execution of the real Python/torch code") + " with z3 deciding branches and assertions",
                           "level": "model_checking", "level_note": LEVEL_NOTE.format(note=note or "bounds are listed in the evidence")})
        else:
            na.append({"property": i, "reason": NA.get(i, "check not built yet")})
    m = {"version": 1, "setup_cmd": f"{PY} -m symtn --selftest", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo are needed: tensors are made symbolic from outside through torch's dispatch mechanism."}
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks;", [x["property"] for x in na])


main()
