"""Decides one property: seeded search over simulated runs on a pool of worker
processes, minimisation of what fails, replay files and evidence."""
import argparse
import base64
import copy
import json
import os
import pickle
import random
import selectors
import shutil
import subprocess
import sys
import tempfile
import time

from . import changed, env

T0 = time.time()
OUT = os.path.join(env.VERIF, "out")
EVID = os.path.join(env.VERIF, "evidence")
KNOWN = os.path.join(env.VERIF, "known-findings.txt")
JOB_LIMIT = 210.0
LEVEL = "exploration"

# the environments of the replicas of one program
REPLICAS = [
    {"hashseed": "0"},
    {"hashseed": "1", "env": {"TZ": "Asia/Tokyo", "LANG": "C", "LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "COLUMNS": "40"}},
    {"hashseed": "4242", "env": {"TZ": "America/St_Johns", "PYTHONUTF8": "1", "USER": "somebody", "NUMEXPR_MAX_THREADS": "3"}},
    {"hashseed": "99", "env": {"LANG": "C.UTF-8", "PYTHONDEVMODE": "0", "SOURCE_DATE_EPOCH": "0"}},
]


class Worker:
    n = 0

    def __init__(self, scratch, replica=0, main="sim.worker"):
        Worker.n += 1
        self.dir = os.path.join(scratch, f"w{Worker.n}")
        for d in ("home", "tmp", "cwd"):
            os.makedirs(os.path.join(self.dir, d), exist_ok=True)
        rep = REPLICAS[replica]
        e = env.child_env(scratch, rep["hashseed"], {"HOME": os.path.join(self.dir, "home"), "TMPDIR": os.path.join(self.dir, "tmp"), **rep.get("env", {})})
        self.err = open(os.path.join(self.dir, "stderr"), "wb")
        self.p = subprocess.Popen(
            [env.PY, "-m", main], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=e, cwd=os.path.join(self.dir, "cwd"), start_new_session=True
        )
        self.replica = replica
        self.job = None
        self.ready = False
        self.since = time.time()
        self.cpu = None
        self.done = 0
        self.rss = 0
        self.buf = b""

    def send(self, job):
        self.job = job
        self.since = time.time()
        self.p.stdin.write((json.dumps({k: v for k, v in job.items() if not k.startswith("_")}) + "\n").encode())
        self.p.stdin.flush()

    def kill(self):
        try:
            os.killpg(self.p.pid, 9)
        except ProcessLookupError:
            pass
        self.p.wait()
        for f in (self.p.stdin, self.p.stdout, self.err):
            try:
                f.close()
            except Exception:
                pass

    def tail(self):
        try:
            with open(os.path.join(self.dir, "stderr"), "rb") as f:
                return f.read()[-2500:].decode(errors="replace")
        except OSError:
            return ""


class Pool:
    """Feeds jobs to workers; restarts those that die, hang or grow."""

    def __init__(self, scratch, size, replicas=(0,), max_jobs=250, max_rss=2600):
        self.scratch, self.size, self.max_jobs, self.max_rss = scratch, size, max_jobs, max_rss
        self.reps = [replicas[i % len(replicas)] for i in range(size)]
        self.sel = selectors.DefaultSelector()
        self.ws = [None] * size
        self.heat = None
        self.restarts = 0
        self.start_failures = []
        for i in range(size):
            self.spawn(i)

    def spawn(self, i):
        w = Worker(self.scratch, self.reps[i])
        w.slot = i
        self.ws[i] = w
        self.sel.register(w.p.stdout, selectors.EVENT_READ, w)

    def retire(self, w):
        try:
            self.sel.unregister(w.p.stdout)
        except Exception:
            pass
        w.kill()
        shutil.rmtree(w.dir, ignore_errors=True)
        self.restarts += 1
        self.spawn(w.slot)

    def close(self):
        for w in self.ws:
            if w is not None:
                w.kill()

    def idle(self, replica=None):
        return [w for w in self.ws if w.ready and w.job is None and (replica is None or w.replica == replica)]

    def busy(self):
        return [w for w in self.ws if w.job is not None and w.job.get("cmd") != "heat"]

    def wait(self, timeout=0.5):
        """[(worker, job, reply)] that came in; reply has "dead"/"hang" if the worker was lost."""
        got = []
        for k, _ in self.sel.select(timeout):
            w = k.data
            d = os.read(w.p.stdout.fileno(), 1 << 20)
            if not d:
                job, tail, rc = w.job, w.tail(), w.p.poll()
                if not w.ready:
                    self.start_failures.append((w.replica, tail))
                    if len(self.start_failures) > 12:
                        raise SystemExit(fail("simulator processes do not start:\n" + tail))
                w.job = None
                self.retire(w)
                if job is not None:
                    got.append((w, job, {"dead": tail, "rc": rc}))
                continue
            w.buf += d
            while b"\n" in w.buf:
                ln, w.buf = w.buf.split(b"\n", 1)
                r = json.loads(ln)
                if r.get("ready"):
                    w.ready = True
                    if self.heat is not None:
                        w.send({"cmd": "heat", "lines": self.heat})
                    continue
                job, w.job = w.job, None
                w.done += 1
                w.rss = r.get("rss", 0)
                if job["cmd"] != "heat":
                    got.append((w, job, r))
                if "Wedge" in r.get("error", "") or w.done >= self.max_jobs or w.rss > self.max_rss:
                    self.retire(w)
        now = time.time()
        for w in list(self.ws):
            if w.job is not None and (now - w.since > JOB_LIMIT or self.stalled(w, now)):
                job, w.job = w.job, None
                self.retire(w)
                got.append((w, job, {"hang": True}))
            elif not w.ready and now - w.since > JOB_LIMIT:
                raise SystemExit(fail("a simulator process did not start:\n" + w.tail()))
        return got

    @staticmethod
    def stalled(w, now):
        """A job that runs for long and has used no processor time for 15 s."""
        if now - w.since < 25:
            w.cpu = None
            return False
        try:
            with open(f"/proc/{w.p.pid}/stat") as f:
                x = f.read().rpartition(")")[2].split()
            used, state = int(x[11]) + int(x[12]), x[0]
        except (OSError, IndexError, ValueError):
            return False
        if w.cpu is None or used - w.cpu[0] > 3 or state != "S":
            w.cpu = (used, now)
        return now - w.cpu[1] > 15

    def set_heat(self, lines):
        self.heat = lines
        for w in self.ws:
            if w.ready and w.job is None:
                w.send({"cmd": "heat", "lines": lines})

    def map(self, jobs, deadline=None, replica=None):
        """Replies to jobs, in their order (None for those the deadline cut off)."""
        res = [None] * len(jobs)
        todo = list(range(len(jobs)))[::-1]
        open_ = 0
        while todo or open_:
            if deadline is not None and time.time() > deadline:
                todo = []
                if time.time() > deadline + 20:
                    break
            for w in self.idle(replica):
                if todo:
                    i = todo.pop()
                    w.send({**jobs[i], "_i": i})
                    open_ += 1
            for w, job, r in self.wait(0.2):
                if "_i" in job:
                    res[job["_i"]] = r
                    open_ -= 1
        return res


def fail(msg):
    print("HARNESS: " + msg, file=sys.stderr)
    return 2


# ---------------------------------------------------------------- violations
def kinds(v):
    return {x["kind"] for x in v}


class Oracle:
    """Runs one spec and says what is violated (for C14: on two replicas)."""

    def __init__(self, pid, pool):
        self.pid, self.pool = pid, pool

    def jobs(self, spec):
        if spec.get("replica"):
            a, b = spec.get("pair", [0, 1])
            return [{"cmd": "spec", "prop": self.pid, "spec": spec, "replica": r, "_rep": r} for r in (a, b)]
        return [{"cmd": "spec", "prop": self.pid, "spec": spec, "want": True}]

    def many(self, specs, deadline=None):
        """[(violations or None, reply)]"""
        if specs and specs[0].get("replica"):
            outs = []
            per = {}
            for i, s in enumerate(specs):
                for k, j in enumerate(self.jobs(s)):
                    per.setdefault(j.pop("_rep"), []).append((i, k, j))
            got = {}
            for rep, items in per.items():
                for (i, k, _), r in zip(items, self.pool.map([j for _, _, j in items], deadline, replica=rep)):
                    got[(i, k)] = r
            for i in range(len(specs)):
                outs.append(replica_verdict(self.pid, specs[i], got.get((i, 0)), got.get((i, 1))))
            return outs
        rs = self.pool.map([self.jobs(s)[0] for s in specs], deadline)
        return [(reply_violations(r), r) for r in rs]


def reply_violations(r):
    if r is None or "error" in r and "Wedge" not in r["error"]:
        return None
    if r.get("hang") or "error" in r:
        return [{"kind": "hang", "op": None, "entry": "", "what": "a caller never came back (no progress outside the library's own code)"}]
    if "dead" in r:
        # jaxlib can crash in the garbage collector after an exception went through one
        # of its C++ caches: that says nothing about the library
        return None
    return r["v"]


def words(text):
    """The words of a message: those of a printed set come in any order."""
    import re

    return sorted(re.findall(r"[\w.]+", re.sub(r"0x[0-9a-f]+", "", str(text))))


def replica_verdict(pid, spec, a, b):
    from . import norm
    from .catalogkey import key

    if not a or not b or "results" not in a or "results" not in b:
        for r in (a, b):
            if r and "hang" in r:
                return reply_violations(r), r
        return None, a
    x = pickle.loads(base64.b64decode(a["results"]))
    y = pickle.loads(base64.b64decode(b["results"]))
    v = list(a["v"]) + list(b["v"])
    for t, s in enumerate(spec["threads"]):
        for k, op in enumerate(s):
            if x[t][k] is None:
                continue
            d = norm.compare(y[t][k], x[t][k], 24)
            if not d and x[t][k][0] == "EXC" and words(x[t][k][2]) != words(y[t][k][2]):
                d = f"{x[t][k][1]}: {x[t][k][2]!r} and {y[t][k][2]!r}"
            if not d and x[t][k][0] != "EXC" and not norm.same(x[t][k], y[t][k]):
                d = f"not bit for bit the same: {str(x[t][k])[:200]} and {str(y[t][k])[:200]}"
            if d:
                v.append({"kind": "replica", "op": [t, k], "entry": op["e"], "what": f"{key(op)}: two processes disagree: {d}"})
    return v, a


def renumber(spec, t, k):
    """The spec without op k of thread t."""
    s = copy.deepcopy(spec)
    del s["threads"][t][k]

    def fix(tt, kk):
        if tt != t or kk < k:
            return kk
        return None if kk == k else kk - 1

    if s.get("faults"):
        s["faults"] = [[a, fix(a, b), c, x] for a, b, c, x in s["faults"] if fix(a, b) is not None]
    sc = s.get("sched", {})
    if "record" in sc:
        sc["record"] = [[a, fix(a, b), n, to, so] for a, b, n, to, so in sc["record"] if fix(a, b) is not None]
    if "aim" in sc:
        sc["aim"] = [[a, fix(a, b), ns] for a, b, ns in sc["aim"] if fix(a, b) is not None]
    if not s["threads"][t] and len(s["threads"]) > 1:
        s = drop_thread(s, t)
    if s.get("cycle"):
        return None
    return s


def drop_thread(spec, t):
    s = copy.deepcopy(spec)
    del s["threads"][t]
    f = lambda a: a if a < t else a - 1  # noqa: E731
    if s.get("faults"):
        s["faults"] = [[f(a), b, c, x] for a, b, c, x in s["faults"] if a != t]
    sc = s.get("sched", {})
    if "record" in sc:
        sc["record"] = [[f(a), b, n, f(to), so] for a, b, n, to, so in sc["record"] if a != t and to != t]
        sc["starts"] = [f(a) for a in sc["starts"] if a != t]
    if "aim" in sc:
        sc["aim"] = [[f(a), b, ns] for a, b, ns in sc["aim"] if a != t]
    return s


def reductions(spec, bases):
    """Specs one step smaller, most promising first."""
    out = []
    th = spec["threads"]
    if len(th) > 1:
        out += [drop_thread(spec, t) for t in range(len(th))]
    for t in range(len(th)):
        for k in range(len(th[t])):
            if sum(len(x) for x in th) > 1:
                r = renumber(spec, t, k)
                if r is not None:
                    out.append(r)
    sc = spec.get("sched", {})
    rec = sc.get("record")
    if rec:
        n = len(rec)
        for w in (n // 2, n // 4, 1):
            if w >= 1 and (w > 1 or n <= 24):
                for i in range(0, n, w):
                    s = copy.deepcopy(spec)
                    s["sched"]["record"] = rec[:i] + rec[i + w :]
                    out.append(s)
    for i in range(len(spec.get("faults", []))):
        s = copy.deepcopy(spec)
        del s["faults"][i]
        out.append(s)
    for k, v in (("import", None), ("instr", None), ("prebuild", None), ("settings", None), ("edit", None)):
        if spec.get(k):
            s = copy.deepcopy(spec)
            s.pop(k)
            if k == "import" and spec.get("modlines"):
                continue
            out.append(s)
    if spec.get("share") and not spec.get("cycle"):
        s = copy.deepcopy(spec)
        s["share"] = False
        out.append(s)
    for t in range(len(th)):
        for k, op in enumerate(th[t]):
            if op["e"] == "import":
                for i in range(len(op["p"].get("io", []))):
                    s = copy.deepcopy(spec)
                    del s["threads"][t][k]["p"]["io"][i]
                    out.append(s)
                if len(op["p"]["mods"]) > 1:
                    for i in range(len(op["p"]["mods"])):
                        s = copy.deepcopy(spec)
                        del s["threads"][t][k]["p"]["mods"][i]
                        out.append(s)
                continue
            b = bases.get(op["e"])
            if not b or spec.get("cycle"):
                continue
            for p, d in b.items():
                if p in op["p"] and op["p"][p] != d:
                    s = copy.deepcopy(spec)
                    s["threads"][t][k]["p"][p] = d
                    out.append(s)
            if op.get("mode", "eager") != "eager":
                s = copy.deepcopy(spec)
                s["threads"][t][k]["mode"] = "eager"
                out.append(s)
    return out


def minimise(oracle, spec, want, bases, deadline):
    steps = 0
    while time.time() < deadline:
        cands = reductions(spec, bases)
        hit = None
        for i in range(0, len(cands), 8):
            chunk = cands[i : i + 8]
            for c, (v, _) in zip(chunk, oracle.many(chunk, deadline)):
                if v and kinds(v) & want:
                    hit = c
                    break
            if hit is not None or time.time() > deadline:
                break
        if hit is None:
            break
        spec = hit
        steps += 1
    return spec, steps


def known():
    out = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if ln.startswith("finding:"):
                out.append(json.loads(ln[len("finding:") :]))
    return out


def known_match(pid, v, ks):
    for f in ks:
        if f["property"] == pid and all(v["kind"] == f.get("kind", v["kind"]) and v["entry"] == f.get("entry", v["entry"]) and f.get("contains", "") in v["what"] for _ in (0,)):
            return f
    return None


def replay_text(pid, spec, v, extra):
    return {
        "property": pid,
        "violation": v[:6],
        "seed": spec.get("seed"),
        "callers": [[{k: x for k, x in o.items()} for o in s] for s in spec["threads"]],
        "schedule": spec.get("sched", {}).get("record"),
        "faults": spec.get("faults"),
        "spec": spec,
        **extra,
    }


# ---------------------------------------------------------------- the search
class Search:
    def __init__(self, pid, tier, seed, budget):
        self.pid, self.tier, self.seed, self.budget = pid, tier, seed, budget
        self.scratch = tempfile.mkdtemp(prefix=f"sim-{pid}-")
        self.lost = 0
        self.runs = self.errors = self.ops = self.steps = self.switches = self.hotsw = self.denied = 0
        self.nontrivial = 0
        self.clock = 0.0
        self.clockreads = 0
        self.sigs = set()
        self.swhs = set()
        self.faults = {}
        self.fault_at = set()
        self.kindsrun = {}
        self.unrepro = []
        self.errs = []
        self.samples = []
        self.entries = {}
        self.determinism = [0, 0]
        self.edits = self.reused = 0
        self.known_hits = {}
        self.refexc = {}
        self.digests = {}
        self.lines = set()
        self.hotl = set()

    def account(self, job, r):
        s = r["stats"]
        self.runs += 1
        self.ops += s["ops"]
        self.steps += s["steps"]
        self.switches += s["switches"]
        self.hotsw += s["hotsw"]
        self.denied += s["denied"]
        self.clock += abs(s["clock"])
        self.edits += s["edits"]
        self.reused += s["reused"]
        self.nontrivial += bool(r["nontrivial"] and r["sig"] not in self.sigs)
        self.sigs.add(r["sig"])
        if s["switches"]:
            self.swhs.add(s["swh"])
        for k, where in s["fired"]:
            self.faults[k] = self.faults.get(k, 0) + 1
            self.fault_at.add(where)
        for what, name, k in s["io"]:
            kk = f"{what} {k}"
            self.faults[kk] = self.faults.get(kk, 0) + 1
            self.fault_at.add(name)
        k = s["kind"] or ("threads" if s["threads"] > 1 else "history")
        self.kindsrun[k] = self.kindsrun.get(k, 0) + 1

    def main(self):
        os.makedirs(OUT, exist_ok=True)
        os.makedirs(EVID, exist_ok=True)
        try:
            return self.go()
        finally:
            if getattr(self, "pool", None):
                self.pool.close()
            shutil.rmtree(self.scratch, ignore_errors=True)

    def go(self):
        os.environ.setdefault("SIM_SCRATCH", self.scratch)
        meta = json.loads(subprocess.run([env.PY, "-m", "sim.meta", self.pid], env=env.child_env(self.scratch), stdout=subprocess.PIPE, check=True).stdout)
        self.bases = meta["bases"]
        self.replica = meta["replica"]
        reps = tuple(range(len(REPLICAS))) if self.replica else (0,)
        self.pool = Pool(self.scratch, 8, reps)
        self.oracle = Oracle(self.pid, self.pool)
        deadline = T0 + self.budget
        # 1. every operation alone: the reference values, and which operations touch the same state
        heat = {}
        touch = []
        jobs = [{"cmd": "ref", "prop": self.pid, "op": op} for op in meta["ops"]]
        for op, r in zip(meta["ops"], self.pool.map(jobs, replica=None)):
            if r is None or "hot" not in r:
                self.errs.append(("ref", op["e"], (r or {}).get("error") or (r or {}).get("dead") or "lost"))
                continue
            for x in r["hot"]:
                heat.setdefault(x, [])
                if op["e"] not in heat[x]:
                    heat[x].append(op["e"])
            touch.append((op, r["lines"], r["hot"]))
            self.lines.update(r["lines"])
            self.hotl.update(r["hot"])
            if r["exc"]:
                self.refexc[op["e"]] = r["exc"]
        if len(self.errs) > len(jobs) // 3:
            return self.finish(2, "operations cannot be performed alone: " + str(self.errs[0]))
        self.pool.set_heat({"lines": {k: heat[k] for k in sorted(heat)}, "changed": self.directed(meta, touch, deadline)})
        self.t_search = time.time()
        # 2. the search
        verdict = self.search(deadline)
        return verdict

    def directed(self, meta, touch, deadline):
        """{changed statement: operations which execute it}: found among the operations
        performed alone, and among variants of those which run code of the same file."""
        new = {f"{p}:{n}" for p, ns in changed.lines().items() for n in ns}
        if not new:
            return {}
        files = {x.rpartition(":")[0] for x in new}
        rng = random.Random(self.seed)
        near = sorted({op["e"] for op, lines, hot in touch if any(x.rpartition(":")[0] in files for x in lines)})
        rng.shuffle(near)
        probes = []
        for i in range(3):
            for n in near[:40]:
                o = next(op for op, _, _ in touch if op["e"] == n)
                probes.append({**o, "p": {k: rng.choice(d) for k, d in meta["doms"][n].items()}, "mode": rng.choice(meta["modes"][n])})
        until = min(deadline, time.time() + 0.2 * self.budget)
        jobs = [{"cmd": "ref", "prop": self.pid, "op": op} for op in probes]
        for op, r in zip(probes, self.pool.map(jobs, deadline=until)):
            if r and "hot" in r:
                touch.append((op, r["lines"], r["hot"]))
        out = {}
        for op, lines, hot in touch:
            for x in new.intersection(lines):
                o = {k: v for k, v in op.items() if k in ("e", "p", "mode")}
                if o not in out.setdefault(x, []):
                    out[x].append(o)
        # statements which the same operations execute count once
        seen, res = set(), {}
        for x in sorted(out):
            k = json.dumps(out[x], sort_keys=True)
            if k not in seen:
                seen.add(k)
                res[x] = out[x][:24]
        self.aimed = {x: sorted({o["e"] for o in res[x]}) for x in res}
        return res

    def search(self, deadline):
        nxt = 0
        redo = []
        pend = {}  # seed -> replies by replica (C14)
        base = self.seed * 1_000_000
        bad = None
        while True:
            now = time.time()
            stop = now > deadline or bad is not None
            for w in self.pool.idle():
                if stop:
                    break
                if self.replica:
                    job = self.next_replica(w, base, pend)
                    if job is None:
                        continue
                elif redo and redo[0][1] is not w:
                    job = {"cmd": "run", "prop": self.pid, "seed": redo.pop(0)[0], "_redo": True}
                else:
                    job = {"cmd": "run", "prop": self.pid, "seed": base + nxt, "want": nxt < 3}
                    nxt += 1
                w.send(job)
            got = self.pool.wait(0.25)
            for w, job, r in got:
                if job["cmd"] != "run":
                    continue
                sd = job["seed"]
                if "error" in r and "Wedge" not in r["error"]:
                    self.errors += 1
                    self.errs.append(("run", sd, r["error"]))
                    continue
                if "dead" in r:
                    self.lost += 1
                v = reply_violations(r)
                if "stats" in r:
                    if job.get("_redo"):
                        self.determinism[0] += 1
                        a, b = self.digests.get(sd), (r["stats"]["digest"], r["stats"]["hash"], r["stats"]["swh"])
                        if a != b:
                            self.determinism[1] += 1
                            self.errs.append(("determinism", sd, f"{a} {b}"))
                        continue
                    self.account(job, r)
                    if job.get("want") and "spec" in r:
                        self.samples.append(brief(r["spec"], r))
                    if not self.replica and sd - base < 8:
                        self.digests[sd] = (r["stats"]["digest"], r["stats"]["hash"], r["stats"]["swh"])
                        redo.append((sd, w))
                spec = r.get("spec")
                if self.replica:
                    if "results" in r:
                        pend.setdefault(sd, {})[job["replica"]] = r
                        if len(self.samples) < 3:
                            self.samples.append(brief(spec, r))
                    if v:
                        vv, sp = v, dict(spec or {}, pair=[0, job["replica"]])
                    else:
                        p = pend.get(sd, {})
                        if len(p) < 2:
                            continue
                        rs = sorted(p)
                        sp = dict(spec, pair=rs)
                        vv, _ = replica_verdict(self.pid, sp, p[rs[0]], p[rs[1]])
                        bw = self.__dict__.setdefault("bitwise", [0, 0])
                        bw[0] += 1
                        if p[rs[0]]["stats"]["digest"] != p[rs[1]]["stats"]["digest"]:
                            bw[1] += 1
                            if os.environ.get("SIM_BITS"):
                                print("bits", sd, rs, json.dumps(sp["threads"])[:600], file=sys.stderr)
                        del pend[sd]
                    if vv and bad is None:
                        bad = (sd, vv, sp, None)
                elif v and bad is None:
                    bad = (sd, v, spec, r.get("rec"))
            if bad is not None:
                code = self.handle(bad)
                if code is not None:
                    return code
                bad = None
                if len(self.unrepro) >= 6:
                    deadline = min(deadline, time.time())
            if stop and not self.pool.busy():
                break
            if stop and time.time() > deadline + 50:
                break
        if self.runs == 0 or self.errors + self.lost > max(8, self.runs // 3):
            return self.finish(2, f"{self.errors} runs failed in the harness, {self.lost} processes died: {self.errs[-1] if self.errs else ''}")
        return self.finish(0)

    def next_replica(self, w, base, pend):
        """Seed i runs on replicas 0 and 1 + i % 3."""
        q = self.__dict__.setdefault("_queues", {r: [] for r in range(len(REPLICAS))})
        n = self.__dict__.setdefault("_next", [0])
        while not q[w.replica]:
            i = n[0]
            if min(len(x) for x in q.values()) > 6:
                return None
            n[0] += 1
            a, b = [(0, 1), (0, 2), (0, 3), (1, 2), (2, 3), (1, 3)][i % 6]
            q[a].append(i)
            q[b].append(i)
            if n[0] > 100000:
                return None
        i = q[w.replica].pop(0)
        return {"cmd": "run", "prop": self.pid, "seed": base + i, "replica": w.replica}

    def handle(self, bad):
        """Confirms, minimises and reports. None if it was not to be reproduced or is known."""
        sd, v, spec, rec = bad
        ks = known()
        fresh = [x for x in v if not known_match(self.pid, x, ks)]
        for x in v:
            f = known_match(self.pid, x, ks)
            if f:
                self.known_hits[f["name"]] = self.known_hits.get(f["name"], 0) + 1
        if not fresh:
            return None
        print(f"seed {sd}: {fresh[0]['kind']}: {fresh[0]['what'][:600]}", file=sys.stderr)
        if spec is None:
            r = self.pool.map([{"cmd": "make", "prop": self.pid, "seed": sd}])[0]
            if not r or "spec" not in r:
                self.unrepro.append((sd, v[:2]))
                return None
            spec = r["spec"]
        want = kinds(fresh)
        exact = [spec]
        if rec and spec.get("sched"):
            exact.insert(0, dict(spec, sched=rec))
        found = None
        for s in exact:
            vv = self.isolated(s)
            if vv and kinds(vv) & want:
                found = (s, vv)
                break
        if found is None:
            self.unrepro.append((sd, [x["what"][:300] for x in fresh[:2]]))
            return None
        s, vv = found
        small, steps = minimise(self.oracle, s, want, self.bases, time.time() + (60 if self.tier == "quick" else 150))
        vs = None
        for c in (small, s):
            vs = self.isolated(c)
            if vs and kinds(vs) & want:
                small = c
                break
        else:
            self.unrepro.append((sd, [x["what"][:300] for x in fresh[:2]]))
            return None
        vs = [x for x in vs if not known_match(self.pid, x, ks)] or vs
        path = os.path.join(OUT, f"{self.pid}-{sd}.json")
        with open(path, "w") as f:
            json.dump(replay_text(self.pid, small, vs, {"found_by_seed": sd, "minimisation_steps": steps, "hashseeds": [REPLICAS[x] for x in small.get("pair", [0])], "replay_with": f"bash bin/check {self.pid} --replay {os.path.relpath(path, env.VERIF)}"}), f, indent=1)
        self.violation = vs[0]
        print(f"  {vs[0]['kind']}: {vs[0]['what'][:900]}")
        print(f"VIOLATION property={self.pid} replay={path}", flush=True)
        return self.finish(1)

    def isolated(self, spec):
        """spec on fresh processes."""
        reps = spec.get("pair", [0]) if spec.get("replica") else [0]
        p = Pool(self.scratch, len(reps), tuple(reps))
        try:
            return Oracle(self.pid, p).many([spec])[0][0]
        finally:
            p.close()

    def finish(self, code, msg=None):
        wall = time.time() - T0
        search_h = max(1e-6, (time.time() - getattr(self, "t_search", T0)) / 3600)
        if msg:
            fail(msg)
        for e in self.errs[:4]:
            print("note:", str(e)[:1500], file=sys.stderr)
        for sd, what in self.unrepro[:5]:
            print("note: not reproduced:", sd, str(what)[:800], file=sys.stderr)
        for k in known():
            if k["property"] == self.pid:
                print(f"KNOWN-FINDING: property={self.pid} {k['name']}")
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": LEVEL,
            "coverage": {
                "evaluations": self.runs,
                "distinct_nontrivial": self.nontrivial,
                "rule": "one evaluation is one simulated run (a fresh instance of the library, seeded callers, schedule and faults); it is non-trivial if it makes two or more calls, or switches inside a call, or a fault fired; distinct by callers, schedule hash and faults that fired",
                "samples": self.samples[:3] or ["no run finished"],
                "operations_performed": self.ops,
                "runs_and_seeds_per_hour": round(self.runs / search_h),
                "simulated_time": {"scheduler_steps": self.steps, "simulated_clock_seconds": round(self.clock, 3)},
                "faults_injected": self.faults,
                "fault_sites_distinct": len(self.fault_at),
                "interleavings": {
                    "measure": "hash of the sequence of (from, to, code position) of all preemptions",
                    "distinct": len(self.swhs),
                    "preemptions": self.switches,
                    "preemptions_at_shared_state": self.hotsw,
                    "deferred_inside_jax_tracing": self.denied,
                },
                "runs_by_kind": self.kindsrun,
                "caller_edits_of_results": self.edits,
                "simulated_addresses_reused": self.reused,
                "library_lines_reached_by_single_operations": len(self.lines),
                "library_lines_touching_shared_state_reached": len(self.hotl),
                "determinism": {"seeds_run_twice_in_two_processes": self.determinism[0], "different": self.determinism[1]},
                "real": ["all of jaxoplanet from /repo's working tree", "JAX/XLA", "pint/jpu", "mpmath", "numpy/scipy", "matplotlib (Agg)"],
                "simulated": ["thread scheduling", "locks created by the library", "clocks and sleep read by the library", "object addresses seen by the library", "random seeds", "disk under the library's files (C08)", "interrupts and allocation failures"],
                "harness_errors": self.errors,
                "processes_lost_to_crashes_in_jaxlib": self.lost,
                "not_reproduced": len(self.unrepro),
                **({"replica pairs, of these not bitwise equal": self.bitwise} if getattr(self, "bitwise", None) else {}),
                "search_directed_at_changed_statements": getattr(self, "aimed", {}),
                "operations_that_raise_alone": self.refexc,
            },
            "assumptions": [
                "CPython with the GIL: threads interleave between lines, calls and (in some runs) instructions of library code, not inside C code or JAX's tracing machinery",
                "interrupts and allocation failures surface at calls made by library code outside its own cleanup code",
                "the outcome of an operation alone in a fresh instance is the reference; results agree to 1e-11 relative (float64), 2e-6 (float32)",
            ],
            "wall_s": round(wall, 1),
            "violations": 1 if code == 1 else 0,
        }
        with open(os.path.join(EVID, f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{self.pid} {self.tier}: {self.runs} runs, {self.ops} operations, {self.steps} steps, {self.switches} preemptions, faults {sum(self.faults.values())}, lost {self.lost}, {wall:.0f} s, exit {code}")
        return code


def brief(spec, r):
    return {
        "seed": spec.get("seed"),
        "callers": [[f"{o['e']} {json.dumps(o.get('p', {}), sort_keys=True)} {o.get('mode', '')}"[:160] for o in s] for s in spec["threads"]],
        "share_objects": spec.get("share"),
        "schedule": {k: v for k, v in spec.get("sched", {}).items() if k != "aim"},
        "preemptions": r["rec"]["record"][:12] if r.get("rec") else [],
        "faults": spec.get("faults", []),
        "import": spec.get("import"),
        "steps": r["stats"]["steps"],
        "digest": r["stats"]["digest"],
    }


def replay(pid, path):
    d = json.load(open(path))
    spec = d["spec"]
    scratch = tempfile.mkdtemp(prefix="sim-replay-")
    os.environ.setdefault("SIM_SCRATCH", scratch)
    reps = spec.get("pair", [0]) if spec.get("replica") else [0]
    p = Pool(scratch, len(reps), tuple(reps))
    try:
        v, r = Oracle(pid, p).many([spec])[0]
    finally:
        p.close()
        shutil.rmtree(scratch, ignore_errors=True)
    if v is None:
        return fail(f"replay failed: {str(r)[:2000]}")
    for x in v:
        print(f"  {x['kind']} at {x['op']}: {x['what'][:1200]}")
    if v:
        print(f"VIOLATION property={pid} replay={os.path.abspath(path)}")
        return 1
    print("the replayed run violates nothing")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.prop, a.replay))
    budget = a.budget or float(os.environ.get("SIM_BUDGET", 0)) or (80.0 if a.tier == "quick" else 780.0)
    sys.exit(Search(a.prop, a.tier, a.seed, budget).main())


if __name__ == "__main__":
    main()
