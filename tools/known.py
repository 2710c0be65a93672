"""Writes known_findings.json (run by hand)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
H = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in log}
FIXED = [
 ("C13", "fix: full-system rsvd projectors used the adjoint instead of the transpose",
  "full-system projectors with randomised decomposition did not resolve the identity for complex tensors"),
 ("C15", "fix: distributed boundary moves for any number of ranks and on the cpu backend",
  "distributed moves failed or left stale tensors for more workers than bonds and on the cpu backend"),
 ("C15", "fix: gather projectors of different ranks between workers",
  "gathering projectors of unequal rank between workers failed"),
 ("C02", "fix: every network owns its site tensors", "all networks of a process shared one tensor store"),
 ("C03", "fix: saving a network leaves it as it was", "saving marked a fresh network as initialised and rewrote its tensors"),
 ("C02", "fix: networks do not share dimensions or model parameters",
  "changing the boundary dimension or a model parameter changed the caller's dictionary and other networks"),
 ("C04", "fix: evolve continues from the state given to the constructor",
  "evolving a network constructed from a state discarded that state"),
 ("C05", "fix: every time evolution owns its gates", "building gates for one evolution replaced the gates of another"),
 ("C05", "fix: gates keep every one-site term, accept tensors and leave the model's matrices alone",
  "one-site terms were dropped unless both ends of a bond had one; plain tensors were rejected; cached matrices were modified (also C06)"),
 ("C23", "fix: simple update with complex tensors", "the simple update failed for complex tensors"),
 ("C25", "fix: sign of real-valued products of sums of Pauli Y operators",
  "products of sums of Y operators had the wrong sign with a real dtype"),
 ("C26", "fix: documented default of the Heisenberg coupling", "omitting J or the parameters of the Heisenberg model failed"),
 ("C31", "fix: a custom model applies to the network it was set on",
  "setting a custom model on one network replaced the custom model of another"),
 ("C21", "fix: start of the alternating least squares with complex tensors",
  "the start of the optimisation used the conjugate of the right singular vectors"),
 ("C24", "fix: solve without Cholesky in the C++ solver when the factorisation fails",
  "the compiled solver went on with a broken factor when the Cholesky factorisation failed"),
 ("C32", "fix: keep the process group for as long as the process has networks that use it",
  "deleting one distributed network destroyed the process group the others communicate through"),
 ("C33", "fix: all workers of a distributed calculation start from the same noise",
  "a network created after a distributed renormalisation differed between the workers"),
 ("C28", "fix: leave disable_progressbar as configured in interactive SLURM jobs",
  "an explicitly disabled progress bar was enabled again in an interactive SLURM job"),
 ("C02", "fix: a copied site tensor owns its dimensions", "changing the dimensions of a copied site tensor changed the original's"),
 ("C27", "fix: the default site state fits every physical dimension", "a network with physical dimension one could not be created"),
 ("C34", "fix: product states are not conjugated when the site tensors are set", "a network initialised to a complex product state measured the conjugated state (asking for +y gave <Y> = -1)"),
]
KNOWN = []
json.dump({"known": KNOWN, "fixed": [f"fixed: property={p} {H[m]} {w}" for p, m, w in FIXED]},
          open(os.path.join(ROOT, "known_findings.json"), "w"), indent=1)
