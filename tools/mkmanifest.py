#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ROUND = "deterministic simulation with fault injection: seeded per-operation rounding schedules, "
N = {
 "C01": (ROUND + "exact rational witnesses as oracle", "Seeded exploration. Every generated program is checked against exact rational arithmetic; the rounding of each operation inside the library is chosen by the simulator. Trusts the exact-arithmetic oracle."),
 "C02": (ROUND + "multiprecision elementary functions as oracle", "Seeded exploration. Math-library results are any faithful value picked by the simulator; checked against enclosures of the true functions computed in 300-bit fixed point. Trusts that oracle."),
 "C03": ("deterministic simulation with fault injection: seeded control-register changes around every call, bit-level reference", "Seeded exploration over bit patterns and MXCSR states (rounding, flush-to-zero, denormals-are-zero, traps masked)."),
 "C04": (ROUND + "exact rational witnesses as oracle", "Seeded exploration over programs of interval vectors, points, rays and mappings."),
 "C05": (ROUND + "exact rational witnesses as oracle", "Seeded exploration over histories of interval operations followed by comparisons, sign, range, membership and classification tests."),
 "C06": ("deterministic simulation with fault injection: scene histories with failing, re-entrant and shared members against a list model", "Seeded exploration; member panics at any member call, allocation-independent. Members of the caller are stubs; lists, transforms, spheres and boxes are real."),
 "C07": ("deterministic simulation with fault injection: scene histories with failing members, metamorphic checks over extents", "Seeded exploration. Rounding is uniform within one comparison so that repeated queries see the same arithmetic."),
 "C08": ("deterministic simulation with fault injection: scene histories, rounding and member faults, containment of every reported hit", "Seeded exploration; hits are judged against boxes with the margin of the rounding error."),
 "C09": (ROUND + "double-precision model of the placement", "Seeded exploration over placements and nested transforms with recording members."),
 "C10": ("deterministic simulation with fault injection: baton-scheduled caller threads, crashes, control-state changes; answers compared with a pristine process", "Seeded exploration of thread interleavings at every float operation and member call; real OS threads, one runs at a time as the simulator decides."),
 "C11": ("deterministic simulation with fault injection: ownership histories with failing allocations and panicking members, drop counting", "Seeded exploration; allocator failures are injected at any allocation of the list operations."),
 "C12": (ROUND + "double-precision model with running error bounds", "Seeded exploration over programs of transforms."),
 "C13": (ROUND + "double-precision model with ambiguity margins", "Seeded exploration; only hits and misses clear of the rounding error are judged."),
 "C14": (ROUND + "double-precision lens model with error bounds", "Seeded exploration over cameras, film and lens samples."),
 "C15": (ROUND + "double-precision model with error bounds", "Seeded exploration over look-at and perspective arguments."),
 "C16": (ROUND + "double-precision map model and cell areas", "Seeded exploration over points and cells of the square."),
 "C17": (ROUND + "value-by-value reference with half/twice tolerance margins", "Seeded exploration over values, positions of differing components and rounding directions; borderline comparisons are not judged."),
 "C18": (ROUND + "double-precision parameterisation model", "Seeded exploration over spheres and hits, relative to the reported point."),
 "C20": ("deterministic simulation with fault injection: deep scenes and odd numbers under simulated rounding and aborts, progress within a bounded number of machine operations", "Seeded exploration over number classes, nesting and faults; the bound is a generous multiple of objects times depth."),
 "C19": (ROUND + "double-precision model with running error bounds", "Seeded exploration over programs of vector, matrix and box operations."),
}
m = {
 "version": 1,
 "setup_cmd": "bash tools/check.sh build",
 "hooks": {"guard": "cfg(scarlet_sim)", "enable": "RUSTFLAGS=\"--cfg scarlet_sim\" (tools/check.sh does it)", "source_commits": ["e12ca4da15bf96be37dcda46c3576af330ee9247"]},
 "checks": [{"property": k, "quick_cmd": f"bash tools/check.sh {k} quick", "thorough_cmd": f"bash tools/check.sh {k} thorough", "technique": t, "level": "exploration", "level_note": n} for k, (t, n) in N.items()],
 "not_applicable": [],
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
