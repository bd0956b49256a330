"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json

S = "src/jaxoplanet/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [S + f for f in files],
            "mechanism": [{"name": a, "where": S + b} for a, b in mech],
            "state": [{"name": a, "meaning": m, "where": S + b} for a, m, b in state],
            "observe_at": list(observe), "hook_needed": hook,
        },
    })


prop("C01", "Orbit, light-curve and unit calls do not depend on what was called before",
     "Any call on orbits (Keplerian, transit, TTV), limb-darkened and emission light curves, light-curve transforms, the Kepler solver or the units layer returns (or raises) exactly what the same call with the same arguments gives when it is the first one in a fresh process. This holds after any sequence of other calls: with nearly equal arguments, other shapes, dtypes, units, numerical orders or JAX transformations, on the same or other models, and after objects were garbage-collected.",
     ["histories", "inputs"], "every finite history of public calls over one process, every next call",
     "Each test makes a handful of calls in one fixed order and compares numbers; none compares a call with the same call made first, so a wrongly keyed memo, a default argument that grows, or a cached first shape passes as long as that order does not expose it.",
     ["core/kepler.py", "core/limb_dark.py", "orbits/keplerian.py", "orbits/transit.py", "orbits/ttv.py", "object_stack.py", "light_curves/limb_dark.py", "light_curves/transforms.py", "light_curves/emission.py", "light_curves/utils.py", "units/decorator.py", "units/field.py", "units/registry.py", "utils.py"],
     [("pure functions of their arguments", "core/limb_dark.py light_curve, solution_vector"), ("frozen modules built per call", "orbits/keplerian.py Central, Body, OrbitalBody, System"), ("closures made per transform", "light_curves/transforms.py integrate, interpolate"), ("cached field converters", "units/field.py")],
     [("unit registry", "one per process, shared by every model", "units/registry.py"), ("integration nodes", "roots of Legendre polynomials for one order", "core/limb_dark.py solution_vector"), ("object stack", "bodies stacked for vmap", "object_stack.py ObjectStack")],
     ["returned values, dtypes, units and exceptions of every call of a run"])
prop("C02", "Surface-map and harmonic calls do not depend on what was called before",
     "Any call on spherical-harmonic maps, surfaces, change-of-basis and rotation matrices, polynomials, solution vectors, map light curves, radial-velocity maps and rendering returns (or raises) exactly what the same call with the same arguments gives when it is the first one in a fresh process. This holds after any sequence of other calls: other degrees, orders, angles, nearly equal coefficients, other dtypes or JAX transformations, on the same or other maps.",
     ["histories", "inputs"], "every finite history of public calls over one process, every next call",
     "Tests parametrise over degrees and angles but never check that the result is independent of the order in which degrees, orders or maps were used; that is a property of whole histories.",
     ["starry/core/basis.py", "starry/core/polynomials.py", "starry/core/rotation.py", "starry/core/s2fft_rotation.py", "starry/core/solution.py", "starry/core/wigner3j.py", "starry/ylm.py", "starry/surface.py", "starry/orbit.py", "starry/light_curves.py", "starry/doppler.py", "starry/system_observable.py", "starry/utils.py"],
     [("matrices recomputed from the degree", "starry/core/basis.py A1, A2_inv, U"), ("closures specialised on degree and order", "starry/core/solution.py solution_vector, rT"), ("maps as immutable dictionaries of coefficients", "starry/ylm.py Ylm"), ("workspace of the Wigner 3j calculator", "starry/core/wigner3j.py")],
     [("Wigner 3j workspace", "scratch array reused by one calculator", "starry/core/wigner3j.py Wigner3jCalculator")],
     ["returned values, dtypes, units and exceptions of every call of a run"])
prop("C03", "Concurrent callers of orbits, light curves and units do not disturb each other",
     "When several threads use orbits, limb-darkened and emission light curves, transforms, the Kepler solver or the units layer at the same time, on shared or separate models, each call returns (or raises) what it would have alone, whatever the interleaving. Every call comes back: no interleaving leaves the callers waiting for each other.",
     ["schedules", "inputs"], "every interleaving of two to four threads of public calls, including the very first calls of the process",
     "The tests are single-threaded.",
     ["core/kepler.py", "core/limb_dark.py", "orbits/keplerian.py", "orbits/transit.py", "orbits/ttv.py", "object_stack.py", "light_curves/limb_dark.py", "light_curves/transforms.py", "light_curves/emission.py", "units/decorator.py", "units/field.py"],
     [("no mutable module state on the paths", "core/limb_dark.py, light_curves/transforms.py"), ("frozen models shared between threads", "orbits/keplerian.py")],
     [("shared models", "one system used by several threads", "orbits/keplerian.py System")],
     ["results per caller", "callers blocked when no thread can run"])
prop("C04", "Concurrent callers of maps and harmonic algebra do not disturb each other",
     "When several threads use maps, surfaces, basis and rotation matrices, polynomials, solution vectors, map light curves, radial velocities or rendering at the same time, on shared or separate objects, each call returns (or raises) what it would have alone, whatever the interleaving. Every call comes back: no interleaving leaves the callers waiting for each other.",
     ["schedules", "inputs"], "every interleaving of two to four threads of public calls, including the very first calls of the process",
     "The tests are single-threaded.",
     ["starry/core/basis.py", "starry/core/polynomials.py", "starry/core/rotation.py", "starry/core/solution.py", "starry/core/wigner3j.py", "starry/ylm.py", "starry/surface.py", "starry/orbit.py", "starry/light_curves.py", "starry/doppler.py", "starry/utils.py"],
     [("matrices built in local variables", "starry/core/basis.py"), ("calculator made per product", "starry/ylm.py _mul"), ("frozen maps shared between threads", "starry/ylm.py, starry/surface.py")],
     [("shared maps", "one surface used by several threads", "starry/surface.py Surface")],
     ["results per caller", "callers blocked when no thread can run"])
prop("C05", "An interrupted or failing call leaves no trace in later calls",
     "If a call is cut short at any point by a keyboard interrupt, by a failed allocation or by an error it raises itself, every later call in the process, including the same call on the same shared objects, returns (or raises) what it would in a fresh process. A call that was cut short either raises or returns its full, correct result.",
     ["crash_points", "fault_sequences", "histories"], "every point at which a call may be cut short, every sequence of such failures, every later call",
     "Tests never cut a call short; the half-initialised cache entry or forgotten restore only exists after one.",
     ["core/limb_dark.py", "core/kepler.py", "orbits/keplerian.py", "object_stack.py", "light_curves/transforms.py", "units/decorator.py", "starry/core/basis.py", "starry/core/wigner3j.py", "starry/ylm.py", "starry/surface.py", "starry/multiprecision/basis.py", "starry/multiprecision/rotation.py", "starry/multiprecision/solution.py", "starry/multiprecision/flux.py"],
     [("results stored only when complete", "starry/multiprecision/basis.py get_A"), ("no half-built shared objects", "orbits/keplerian.py, object_stack.py")],
     [("multiprecision caches", "matrices computed so far", "starry/multiprecision/*.py CACHED_MATRICES")],
     ["results of the calls after the failure"])
prop("C06", "Cached multiprecision results equal freshly computed ones",
     "Every multiprecision change-of-basis, rotation and solution matrix and every multiprecision flux is, to nearly all digits of the working precision in force when it is asked for, the one that a process which has never computed anything gives: whatever was computed before, for other degrees, angles, impact parameters, radii, working precisions and caller-supplied caches, and after calls that were interrupted. With several threads asking at the same precision every call comes back without an error and right to at least 18 digits.",
     ["histories", "schedules", "crash_points", "configurations"], "every history of multiprecision calls with changing working precision and caches, every interleaving of first calls, every interruption point",
     "The tests use one precision, one thread and check the fast library against these values with tolerances near 1e-12, so a stale or mixed-up entry that is wrong in the fifteenth digit, or after the precision was raised, cannot be seen.",
     ["starry/multiprecision/basis.py", "starry/multiprecision/rotation.py", "starry/multiprecision/solution.py", "starry/multiprecision/flux.py", "starry/multiprecision/precision.py", "starry/multiprecision/utils.py"],
     [("cache lookups keyed by degree, precision and arguments", "starry/multiprecision/basis.py get_A; rotation.py get_R; solution.py get_sT"), ("factorial cache", "starry/multiprecision/basis.py fac")],
     [("CACHED_MATRICES, FAC_CACHE", "what has been computed", "starry/multiprecision/*.py"), ("working precision", "mpmath's process-wide setting", "starry/multiprecision/__init__.py")],
     ["every digit of returned matrices and fluxes"])
prop("C07", "Arguments, shared models and results already handed out never change",
     "No call modifies an array, list, dictionary or matrix passed to it, nor any orbit, system, map, surface or transform built earlier, including the older versions of a system after bodies were added. Results handed out stay as they were whatever is called afterwards, and a caller who edits in place a container the library returned does not change what any later call returns, also when calls run concurrently or are interrupted.",
     ["histories", "schedules", "crash_points"], "every history of calls with every object and result kept and compared, every interleaving of two callers, every interruption point",
     "Tests look at the result of a call once, right after it; none keeps arguments, models and old results across later calls.",
     ["orbits/keplerian.py", "orbits/ttv.py", "object_stack.py", "starry/orbit.py", "starry/ylm.py", "starry/core/polynomials.py", "starry/surface.py", "starry/utils.py", "light_curves/transforms.py", "starry/multiprecision/basis.py", "starry/multiprecision/rotation.py", "starry/multiprecision/solution.py"],
     [("adding a body builds a new system", "orbits/keplerian.py System.add_body; starry/orbit.py"), ("copies of inputs", "starry/utils.py plot_lines; starry/ylm.py"), ("cached matrices are copied out", "starry/multiprecision/basis.py get_A")],
     [("ObjectStack", "tuple of the bodies of one system", "object_stack.py")],
     ["deep snapshots of arguments, models and results before and after each call"])
prop("C08", "Importing survives a failing disk: fails loudly, then works when tried again",
     "If reading the library's files or its unit definitions fails, or the import is interrupted, the import raises; it never succeeds with units missing or wrong. When it is tried again in the same process without a fault it succeeds with every unit defined as always, and calls then give their usual results; reads that return few bytes at a time change nothing.",
     ["fault_sequences", "crash_points", "configurations"], "every sequence of failing opens, reads and interrupts during imports of any part of the library in any order, followed by a clean attempt",
     "Tests import the library once from a healthy disk.",
     ["__init__.py", "units/__init__.py", "units/registry.py", "units/decorator.py", "units/field.py", "units/astro_constants_and_units.txt", "starry/multiprecision/__init__.py"],
     [("unit registry loaded at import", "units/registry.py")],
     [("unit_registry", "the table of units", "units/registry.py")],
     ["the full table of units after each attempt", "exceptions of each attempt", "results of calls afterwards"])
prop("C09", "User callbacks: called as promised; failing or re-entering ones are harmless",
     "A model given to the interpolating transform is evaluated exactly once, when it is transformed, and never when the transformed model is called. An exception raised by a user's model or function inside a transform, unit check or mapping over bodies reaches the caller unchanged and leaves no effect on later calls, and a model or function may itself call the library, including the very same transform, with the outcome of making the calls one after the other; all this also under concurrent or interrupted calls.",
     ["histories", "fault_sequences", "schedules", "programs"], "every history of transforms and calls over user functions that fail, recurse or call back into the library at any evaluation",
     "Tests use well-behaved closed-form models called once from a single thread.",
     ["light_curves/transforms.py", "light_curves/utils.py", "units/decorator.py", "orbits/keplerian.py", "object_stack.py"],
     [("grid evaluated in the transform", "light_curves/transforms.py interpolate"), ("wrapping of user functions", "units/decorator.py; light_curves/utils.py vectorize"), ("mapping over bodies", "object_stack.py vmap")],
     [], ["number of evaluations of the user's model", "exceptions seen by the caller", "nested against separate results"])
prop("C10", "Drawing on given axes touches only those axes",
     "Drawing a map or its lines on axes passed by the caller puts the whole picture on exactly those axes: the same image, grid lines and limits whatever figures and current axes pyplot has. No other axes or figure is drawn on, created or closed, also when several threads draw or a drawing is interrupted, and later drawings are complete.",
     ["configurations", "schedules", "crash_points", "histories"], "every state of pyplot (current axes elsewhere, figure closed or unknown to pyplot), every history and interleaving of drawings",
     "Tests draw once on pyplot's current axes and only check that nothing raises.",
     ["starry/visualization.py", "starry/utils.py"],
     [("explicit axes passed down", "starry/visualization.py show_surface; starry/utils.py graticule, plot_lines")],
     [("pyplot's current axes", "process-wide", "starry/utils.py")],
     ["lines, images, limits of every axes of every figure before and after"])
prop("C11", "Results follow the precision mode of the calling thread at the time of the call",
     "A call made with double precision enabled gives the double-precision result and dtypes, and one made with it disabled the single-precision ones, as in a process where the mode was never anything else. This holds whatever mode was active when the library was imported, in earlier calls, or in other threads.",
     ["configurations", "histories", "schedules"], "every sequence of calls alternating between the two modes, on one or more threads, with the library imported in either mode",
     "The test suite enables double precision once for the whole process.",
     ["core/limb_dark.py", "core/kepler.py", "utils.py", "light_curves/transforms.py", "orbits/keplerian.py", "starry/core/basis.py", "starry/core/solution.py", "starry/core/rotation.py", "starry/ylm.py", "starry/surface.py"],
     [("constants made inside the call", "core/limb_dark.py, starry/core/*.py"), ("dtype taken from the arguments", "utils.py get_dtype_eps")],
     [("JAX's precision mode", "thread-local", "core/limb_dark.py")],
     ["dtypes and values against the same call in that mode alone"])
prop("C12", "Tracing leaves nothing behind",
     "Calls made under jit, grad, jvp and vmap, including traces that are aborted half way by an interrupt or error, leave no value of an ended trace in any object, module or returned result. Calls made afterwards, eager or transformed, on the same objects give what they give in a fresh process.",
     ["histories", "crash_points", "programs"], "every history mixing eager and transformed calls on shared objects with traces aborted at any point",
     "Tests trace a function and use its result at once; a leaked tracer only shows when something is used after the trace ended.",
     ["core/limb_dark.py", "core/kepler.py", "orbits/keplerian.py", "object_stack.py", "light_curves/transforms.py", "light_curves/limb_dark.py", "starry/ylm.py", "starry/surface.py", "starry/light_curves.py", "starry/core/polynomials.py"],
     [("no values stored on shared objects while tracing", "orbits/keplerian.py, starry/surface.py")],
     [], ["everything reachable from the library's modules and the callers' objects", "later results"])
prop("C13", "Calls leave the process's settings as they found them",
     "After every call, whether it returned, raised or was interrupted at any point, all process- and thread-wide settings are what they were before it: JAX configuration and precision mode, NumPy error and print settings, warning filters, random generator states, multiprecision working precision, plotting defaults and current figures, environment, working directory, recursion limit, logging, open files and threads. Importing the library changes none of them either, except for choosing the initial multiprecision precision.",
     ["crash_points", "histories", "configurations"], "every public call, every interruption point, every initial setting",
     "Tests do not look at process settings, and never interrupt a call.",
     ["starry/multiprecision/__init__.py", "starry/multiprecision/rotation.py", "starry/multiprecision/solution.py", "starry/visualization.py", "starry/utils.py", "starry/ylm.py", "core/limb_dark.py", "units/registry.py"],
     [("no global settings changed", "core/limb_dark.py, starry/ylm.py"), ("precision only set at import", "starry/multiprecision/__init__.py")],
     [("settings of NumPy, JAX, mpmath, warnings, matplotlib", "owned by the process", "starry/multiprecision/__init__.py")],
     ["snapshot of all settings before and after each call and import"])
prop("C14", "The same program gives the same results in every process",
     "Two processes that make the same calls with the same arguments get the same results, in the same order and structure, whatever their hash seed, order of imports, clock, random state, object addresses, locale, time zone, environment and working directory.",
     ["configurations", "programs"], "every program of public calls, every pair of process environments",
     "The tests run in one environment and compare with tolerances against formulas, not processes with each other.",
     ["orbits/keplerian.py", "object_stack.py", "starry/ylm.py", "starry/core/polynomials.py", "starry/core/basis.py", "starry/surface.py", "starry/doppler.py", "units/registry.py", "units/decorator.py"],
     [("ordered dictionaries of coefficients", "starry/ylm.py, starry/core/polynomials.py"), ("definitions loaded by package path", "units/registry.py")],
     [], ["all results of one program from two processes"])
prop("C15", "Repeating the same calls does not keep growing memory held by the library",
     "When a caller repeats the same calls over and over with the same arguments, on the same or on newly built equal objects, what the library itself keeps alive (module state, caches, registries, closures) stops growing after the first few repetitions. This also holds when some of the repetitions fail or are interrupted.",
     ["histories", "fault_sequences"], "every cycle of calls repeated any number of times, with failures at any point",
     "Tests make each call once; growth needs repetition and a look at what is retained.",
     ["object_stack.py", "orbits/keplerian.py", "units/registry.py", "units/decorator.py", "starry/core/wigner3j.py", "starry/ylm.py", "starry/multiprecision/basis.py", "starry/multiprecision/rotation.py", "starry/multiprecision/solution.py", "starry/multiprecision/flux.py"],
     [("caches keyed by value", "starry/multiprecision/basis.py get_A, fac"), ("no registries of objects", "object_stack.py, orbits/keplerian.py")],
     [("multiprecision caches", "matrices computed so far", "starry/multiprecision/*.py")],
     ["number and size of everything reachable from the library's modules after each repetition"])

NA = "a fact about the numbers one pure call returns for its inputs: no schedule, time, I/O, fault or history enters it, so simulation has nothing to vary"


def na(id, title, statement, text, why, files, mech, reason):
    prop(id, title, statement, ["inputs"], text, why, files, mech)
    P[-1]["_na"] = reason


na("C16", "The Kepler solver satisfies Kepler's equation",
   "For every mean anomaly and eccentricity below one, the returned sine and cosine of the true anomaly satisfy Kepler's equation to machine precision and lie on the unit circle.",
   "all mean anomalies and eccentricities", "tests sample a grid", ["core/kepler.py"], [("starter and refinement", "core/kepler.py")], NA)
na("C17", "Keplerian positions and velocities are consistent",
   "For every system, positions follow an ellipse with the requested elements about the common centre of mass, velocities are their time derivatives, and transit times are times of closest projected approach.",
   "all orbital elements and times", "tests sample parameters", ["orbits/keplerian.py"], [("rotation of the orbital plane", "orbits/keplerian.py OrbitalBody")], NA)
na("C18", "Limb-darkened fluxes are accurate and bounded",
   "For every physical limb-darkening law, radius ratio and impact parameter the flux equals the integral over the visible disc within the error of the chosen quadrature order, and is continuous at the contact points.",
   "all laws, radius ratios and impact parameters", "tests compare a grid", ["core/limb_dark.py"], [("Green's-basis solution", "core/limb_dark.py")], NA)
na("C19", "Map light curves equal the integral over the map",
   "For every map, inclination, obliquity, phase and occultor, the flux equals the surface integral of the visible intensity, and reduces to the limb-darkened flux for a uniform map.",
   "all maps and geometries", "tests compare against multiprecision on a grid", ["starry/light_curves.py", "starry/core/solution.py"], [("solution vector", "starry/core/solution.py")], NA)
na("C20", "Rotations form a group",
   "Rotating a map by two rotations equals rotating by their product, rotating back restores it, and norms of each degree are preserved.",
   "all axes, angles and degrees", "tests sample axes", ["starry/core/rotation.py", "starry/core/s2fft_rotation.py"], [("Wigner matrices", "starry/core/rotation.py")], NA)
na("C21", "Harmonic and polynomial products are products of functions",
   "Multiplying two maps or two polynomials gives the representation of the pointwise product, commutatively and associatively, for every degree.",
   "all coefficient sets", "tests sample products", ["starry/ylm.py", "starry/core/polynomials.py", "starry/core/wigner3j.py"], [("Wigner 3j sums", "starry/ylm.py")], NA)
na("C22", "Unit handling is dimensionally correct",
   "Every decorated function and field gives the same physical result for equal quantities in different units and rejects incompatible dimensions.",
   "all units", "tests sample units", ["units/decorator.py", "units/field.py"], [("conversion on entry", "units/decorator.py")], NA)
na("C23", "Transit-timing variations reproduce the requested transit times",
   "An orbit built from transit times has its transits at exactly those times, and the timing-variation and transit-time descriptions agree.",
   "all sets of transit times", "tests sample a few", ["orbits/ttv.py"], [("piecewise warped time", "orbits/ttv.py")], NA)
na("C24", "Exposure integration and interpolation converge",
   "Integrating over an exposure equals the average of the light curve within the order of the rule, and interpolation reproduces the model at its nodes and converges between them.",
   "all models and settings", "tests sample a few", ["light_curves/transforms.py"], [("rules and interpolation", "light_curves/transforms.py")], NA)
na("C25", "Derivatives are the derivatives, and transformed calls equal plain ones",
   "Gradients agree with finite differences wherever the model is smooth and are finite at the contact points; jit, vmap and mapping over bodies give the same numbers as plain loops.",
   "all inputs and transformations", "tests sample points", ["core/kepler.py", "core/limb_dark.py", "object_stack.py"], [("custom derivative rules", "core/kepler.py")], NA)
na("C26", "Invalid inputs are rejected",
   "Over- or under-determined orbital elements, incompatible shapes and out-of-range values raise errors that name the problem, and every documented combination is accepted.",
   "all combinations of inputs", "tests try a few combinations", ["orbits/keplerian.py", "orbits/transit.py", "orbits/ttv.py"], [("checks in constructors", "orbits/keplerian.py")], NA)

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")

TECH = "deterministic simulation: seeded {}; oracle {}"
HOW = {
    "C01": ("call histories in one simulated process", "the same call alone in a fresh instance"),
    "C02": ("call histories in one simulated process", "the same call alone in a fresh instance"),
    "C03": ("thread schedules (and interrupts) under a simulated scheduler", "each call alone; no deadlock or livelock"),
    "C04": ("thread schedules (and interrupts) under a simulated scheduler", "each call alone; no deadlock or livelock"),
    "C05": ("interrupts and allocation failures at call points, then retries", "each call alone in a fresh instance"),
    "C06": ("histories of changing precision, thread schedules and interrupts", "fresh computation at the working precision"),
    "C07": ("histories, schedules and interrupts with in-place edits by the caller", "snapshots of every argument, object and result"),
    "C08": ("disk faults and interrupts during imports, then retries", "the unit table and results of a clean process"),
    "C09": ("failing and re-entrant callbacks, schedules, interrupts", "evaluation counts, nested equals separate, each call alone"),
    "C10": ("pyplot states, schedules and interrupts", "contents of every axes"),
    "C11": ("precision modes per call, thread and import", "the same call alone in that mode"),
    "C12": ("traces aborted at call points, mixed with eager calls", "no tracer reachable; each call alone"),
    "C13": ("interrupts, unusual settings, import orders", "snapshots of all settings around each call"),
    "C14": ("replicas with different environments", "agreement of the replicas"),
    "C15": ("repeated cycles with failures", "census of everything the library retains"),
}
checks, nas = [], []
for p in P:
    if "_na" in p:
        nas.append({"property": p["id"], "reason": p["_na"]})
        continue
    a, b = HOW[p["id"]]
    checks.append({
        "property": p["id"],
        "quick_cmd": f"bash bin/check {p['id']} quick",
        "thorough_cmd": f"bash bin/check {p['id']} thorough",
        "technique": TECH.format(a, b),
        "level": "exploration",
        "level_note": "Seeded search over simulated runs of the real library (all of jaxoplanet and its dependencies run for real; threads, locks, clocks, addresses, disk and failures are simulated). It shows that no explored run violates the property, not that none can. Trusts that JAX, NumPy and mpmath are deterministic and that preemption between lines and calls of library code reaches the relevant interleavings.",
    })
M = {
    "version": 1,
    "setup_cmd": "bash bin/setup",
    "hooks": {"guard": "none", "enable": "no hooks in /repo: the seams are the import system, sys.monitoring and patched threading, time and io entry points inside the simulator's processes", "source_commits": []},
    "checks": checks,
    "not_applicable": nas,
    "notes": "Checks take about 70 s each on 8 cores. Replay a failure with: bash bin/check <id> --replay <file>.",
}
json.dump(M, open("/verif/MANIFEST.json", "w"), indent=1)
