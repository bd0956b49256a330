"""One simulator process: runs seeds and specs it is sent, one JSON line each."""
import base64
import gc
import json
import os
import pickle
import resource
import sys
import time
import traceback

out = os.fdopen(os.dup(1), "w", buffering=1)
os.dup2(os.open(os.devnull, os.O_WRONLY), 1)

from . import env as _env  # noqa: E402,F401


def say(d):
    out.write(json.dumps(d) + "\n")
    out.flush()


def stats(spec, res):
    from . import world

    ops = sum(len(s) for s in spec["threads"])
    return {
        "digest": world.digest(res["results"]) if res.get("results") else "",
        "hash": res["hash"],
        "swh": res["swh"],
        "steps": res["steps"],
        "switches": len(res["switches"]),
        "hotsw": res["hotsw"],
        "denied": res["denied"],
        "fired": [[f[3], f[4]] for f in res["fired"]],
        "io": [list(x) for x in res.get("io") or []],
        "clock": res["clock"],
        "reused": res["reused"],
        "edits": res.get("edits", 0),
        "ops": ops,
        "threads": len(spec["threads"]),
        "kind": spec.get("kind"),
        "clockread": res.get("clockreads", 0),
    }


def sig(spec, res):
    import hashlib

    from .catalog import key

    s = key([spec["threads"], spec.get("import"), spec.get("share")]) + f"/{res['swh']}/{[f[:4] for f in res['fired']]}/{res.get('io')}"
    return hashlib.sha1(s.encode()).hexdigest()[:12]


def nontrivial(spec, res):
    """Two or more calls on related state, or a schedule that really switched inside
    a call, or a fault that really fired."""
    calls = [o for s in spec["threads"] for o in s if not o["e"].startswith("@")]
    return bool(res["switches"]) or bool(res["fired"]) or bool(res.get("io")) or len(calls) >= 2


def main():
    t0 = time.time()
    from . import world

    world.setup()
    from . import props

    env = {}
    say({"ready": True, "wall": round(time.time() - t0, 2), "pid": os.getpid()})
    for line in sys.stdin:
        job = json.loads(line)
        t0 = time.time()
        try:
            r = do(job, env, props, world)
        except Exception:
            r = {"error": traceback.format_exc()[-3000:]}
        r["wall"] = round(time.time() - t0, 3)
        r["rss"] = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024
        say(r)
        gc.collect(0)


def do(job, env, props, world):
    cmd = job["cmd"]
    if cmd == "heat":
        env["heat"] = job["lines"]
        return {}
    if cmd == "ref":
        op = job["op"]
        r, prof = world.reference(op)
        return {
            "hot": sorted(f"{os.path.relpath(p, _env.SRC)}:{n}" for p, n in prof.get("hot_l", ())),
            "lines": sorted(f"{os.path.relpath(p, _env.SRC)}:{n}" for p, n in prof.get("lines", ())),
            "exc": r[1] + ": " + r[2] if r[0] == "EXC" else None,
        }
    p = props.PROPS[job["prop"]]
    if cmd == "make":
        return {"spec": p.make(job["seed"], env)}
    spec = job["spec"] if cmd == "spec" else p.make(job["seed"], env)
    made = spec
    if "replica" in job:
        spec = p.localise(spec, job["replica"])
    v, res = p.run(spec, env)
    r = {"v": v, "stats": stats(spec, res), "sig": sig(spec, res), "nontrivial": nontrivial(spec, res)}
    if "replica" in job:
        r["results"] = base64.b64encode(pickle.dumps(res["results"])).decode()
    if v or "replica" in job or job.get("want"):
        r["spec"] = made
        r["rec"] = {"record": [list(x) for x in res["switches"]], "starts": res["starts"]}
    return r


if __name__ == "__main__":
    from . import props  # noqa: F401  (registers the properties)
    from . import imports  # noqa: F401

    main()
