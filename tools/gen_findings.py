"""Writes known_findings.json: every defect found so far (all repaired)."""
import json
import subprocess

F = [
    ("C01", "fix: derive XDMF file names", "checkpoint-name-without-h5", "a checkpoint whose name has no .h5 extension was overwritten by its own XDMF file (also C04)"),
    ("C01", "fix: keep Lagrangian fields of different", "same-field-name-on-two-grids", "fields of the same name on two Lagrangian grids: the second silently replaced the first in every save and load"),
    ("C01", "fix: keep all fields added", "fields-added-to-one-grid", "adding more fields to a named Lagrangian grid dropped the earlier ones; an unnamed grid could replace a named one"),
    ("C01", "fix: save and load Lagrangian grids", "grid-without-fields", "a Lagrangian grid without fields was saved but not restored"),
    ("C03", "fix: refuse to load", "one-node-grid-broadcast", "a one-node grid in the file was silently broadcast over all nodes of the loading grid"),
    ("C04", "fix: declare number precision", "xdmf-precision", "XDMF precision was given in bits and origin/spacing had two entries for 3D topologies of 2D grids"),
    ("C01", "fix: treat (dim, N)", "vector-field-with-N-equal-dim", "a (dim, N) Lagrangian field with N == dim was taken for a scalar"),
    ("C15", "fix: allow a boundary penalisation", "penalisation-width-one", "boundary penalisation of width 1 raised after modifying part of the field"),
    ("C15", "fix: leave the field unchanged", "filter-order-zero", "a Laplacian filter of order 0 subtracted whatever the shared buffer held"),
    ("C04", "fix: refer to the checkpoint", "xdmf-relative-path", "the XDMF file named the checkpoint relative to the writer's directory, not its own"),
    ("C06", "fix: allow fixed grid size", "complex-product-fixed-size", "the complex product kernels could not be used with a fixed grid size (also C07)"),
    ("C09", "fix: return the original grid size", "scipy-transform-odd-size", "the scipy transforms returned one column less for odd grid sizes"),
    ("C18", "fix: refused registrations", "refused-registration-kept", "a field refused for its shape stayed registered: every later save failed, or saved the misfit instead of the array registered before"),
    ("C04", "fix: escape names", "xdmf-reserved-characters", "names of files, grids or fields with characters reserved in XML made the XDMF file unreadable; names beyond the locale made the save fail"),
]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True, check=True).stdout.splitlines()
out = []
for prop, start, key, what in F:
    c = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith(start)]
    assert len(c) == 1, (start, c)
    out.append({"property": prop, "key": key, "status": "fixed", "commit": c[0], "what": what,
                "text": f"fixed: property={prop} {c[0]} {what}"})
json.dump({"findings": out}, open("known_findings.json", "w"), indent=1)
