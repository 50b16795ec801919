"""Seeded search over simulated executions: plans, isolated runs, minimisation,
replay files and evidence.

A check provides ``gen(rng, tier) -> plan`` (plain JSON data, everything that the
run will do) and ``run(plan, ctx)``, which executes the plan against the real
library and raises ``Violation``.  Every run happens in a child forked from an
image in which the library is imported and nothing was called yet.
"""
import copy
import hashlib
import json
import os
import pickle
import random
import selectors
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "KNOWN_FINDINGS.txt")


class Violation(Exception):
    """The property does not hold in this execution."""

    def __init__(self, kind, msg):
        super().__init__(f"{kind}: {msg}")
        self.kind, self.msg = kind, msg


class Known(Exception):
    """A violation of a listed known finding (never ends a run by itself)."""


class SimFault(Exception):
    """Error injected by the simulator (never raised by the library)."""


class SimInterrupt(KeyboardInterrupt):
    """Keyboard interrupt injected by the simulator."""


class SimMemory(MemoryError):
    """Failed allocation injected by the simulator."""


FAULTS = {"error": SimFault, "interrupt": SimInterrupt, "memory": SimMemory}
for _kind, _base in (("runtime", RuntimeError), ("value", ValueError), ("arithmetic", ArithmeticError), ("type", TypeError),
                     ("attribute", AttributeError), ("lookup", LookupError), ("os", OSError), ("assertion", AssertionError)):
    # the error of the simulator that handlers of the built-in one would catch
    FAULTS[_kind] = type(f"Sim{_base.__name__}", (SimFault, _base), {"__module__": __name__})
    globals()[FAULTS[_kind].__name__] = FAULTS[_kind]


class Ctx:
    """What a run records.  Nothing in here influences the execution."""

    def __init__(self):
        self.faults, self.probes, self.components = {}, {}, {}
        self.log, self.nlog = hashlib.sha256(), 0
        self.tail = []
        self.steps = 0
        self.states = set()
        self.known = {}
        self.nontrivial = False

    def event(self, *what):
        s = repr(what)
        self.log.update(s.encode())
        self.nlog += 1
        self.tail.append(s[:300])
        if len(self.tail) > 400:
            del self.tail[:200]

    def step(self, n=1):
        self.steps += n

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.event("fault", kind)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *what):
        """Coverage measure: one abstract state / interleaving reached."""
        self.states.add(hashlib.sha1(repr(what).encode()).hexdigest()[:12])

    def known_finding(self, key, msg):
        self.known[key] = msg

    def result(self):
        return {"faults": self.faults, "probes": self.probes, "steps": self.steps,
                "digest": self.log.hexdigest(), "nlog": self.nlog,
                "states": sorted(self.states), "known": self.known,
                "nontrivial": self.nontrivial}


# --------------------------------------------------------------------- seeds
def subseed(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


def reset_generators(seed=0):
    import numpy as np
    import torch as pt
    random.seed(seed)
    np.random.seed(seed % 2**32)
    pt.manual_seed(seed)


# ----------------------------------------------------------- isolated children
def _child_main(fn, wfd):
    """Body of a forked child: never returns."""
    code = 0
    try:
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        devnull = os.open(os.devnull, os.O_RDWR)
        os.dup2(devnull, 0)
        os.dup2(devnull, 1)
        if not os.environ.get("SIM_DEBUG"):
            os.dup2(devnull, 2)
        out = fn()
        data = pickle.dumps(out)
        with os.fdopen(wfd, "wb") as f:
            f.write(data)
    except BaseException:
        traceback.print_exc()
        code = 70
    finally:
        os._exit(code)


def in_fork(fn, timeout=120.):
    """Run ``fn`` in a child of the current process and return its result.
    Must be called before the current process ran any backward pass."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        _child_main(lambda: _told(fn), wfd)
    os.close(wfd)
    data = _read_all(rfd, timeout, pid)
    _, status = os.waitpid(pid, 0)
    if status != 0 or data is None:
        raise RuntimeError(f"child of the simulation ended with {status}")
    return _retell(pickle.loads(data))


def _told(fn, *a):
    """Result of fn, or what it raised, in a form that can be sent."""
    try:
        return "ok", fn(*a)
    except Violation as v:
        return "violation", (v.kind, v.msg)
    except BaseException as e:
        if from_library(e):
            return "violation", ("raises", "in a run of its own: " + described(e))
        return "error", "".join(traceback.format_exception(type(e), e, e.__traceback__))


def from_library(e):
    """Whether an error, not one of the simulator, left the library."""
    if isinstance(e, (*FAULTS.values(), Violation)) or not isinstance(e, Exception):
        return False
    import skwdro
    root = os.path.dirname(os.path.abspath(skwdro.__file__)) + os.sep
    return any(f.filename.startswith(root) for f in traceback.extract_tb(e.__traceback__))


def described(e):
    at = [f"{os.path.basename(f.filename)}:{f.name}" for f in traceback.extract_tb(e.__traceback__)][-4:]
    return f"{type(e).__name__}: {str(e)[:300]} (in {' > '.join(at)})"


def _retell(told):
    st, v = told
    if st == "ok":
        return v
    if st == "violation":
        raise Violation(*v)
    raise RuntimeError("in a child of the simulation: " + v)


def _read_all(fd, timeout, pid):
    end = time.monotonic() + timeout
    chunks = []
    sel = selectors.DefaultSelector()
    sel.register(fd, selectors.EVENT_READ)
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0 or not sel.select(left):
                os.kill(pid, signal.SIGKILL)
                return None
            b = os.read(fd, 1 << 16)
            if not b:
                return b"".join(chunks)
            chunks.append(b)
    finally:
        sel.close()
        os.close(fd)


class Later:
    """A pristine process, forked now, that will run ``fn(payload)`` once, later.
    Stands for the machine that is restarted after a crash: it only gets what it
    is handed as bytes."""

    waiting = []

    def __init__(self, fn):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            # the end of a payload is the end of its pipe: keep no copy of others
            for fd in (*Later.waiting, w1, r2):
                os.close(fd)

            def body():
                with os.fdopen(r1, "rb") as f:
                    data = f.read()
                if not data:
                    os._exit(0)
                return _told(fn, data)
            _child_main(body, w2)
        os.close(r1)
        os.close(w2)
        self.pid, self.w, self.r = pid, w1, r2
        Later.waiting.append(w1)

    def __call__(self, data, timeout=120.):
        Later.waiting.remove(self.w)
        with os.fdopen(self.w, "wb") as f:
            f.write(data)
        self.w = None
        out = _read_all(self.r, timeout, self.pid)
        _, status = os.waitpid(self.pid, 0)
        self.pid = None
        if out is None or status != 0:
            raise RuntimeError(f"restarted process ended with {status}")
        return _retell(pickle.loads(out))

    def close(self):
        if self.pid is not None:
            Later.waiting.remove(self.w)
            os.close(self.w)
            os.close(self.r)
            os.waitpid(self.pid, 0)
            self.pid = None


def execute(check, plan):
    """Body of one simulated run (in its own process)."""
    ctx = Ctx()
    reset_generators(plan.get("ambient", 0))
    out = {"status": "ok"}
    try:
        check.run(plan, ctx)
    except Violation as v:
        out = {"status": "violation", "kind": v.kind, "msg": v.msg[:2000]}
    except BaseException as e:
        out = {"status": "violation", "kind": "raises", "msg": described(e)} if from_library(e) else {"status": "error", "msg": "".join(
            traceback.format_exception(type(e), e, e.__traceback__))[-4000:]}
    out.update(ctx.result())
    out["tail"] = ctx.tail[-40:]
    return out


class Pool:
    """Runs plans in forked children, several at a time."""

    def __init__(self, check, workers):
        self.check, self.workers = check, workers
        self.sel = selectors.DefaultSelector()
        self.live = {}

    def _start(self, key, plan, timeout):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            os.setpgid(0, 0)
            _child_main(lambda: execute(self.check, plan), wfd)
        os.close(wfd)
        self.sel.register(rfd, selectors.EVENT_READ)
        self.live[rfd] = [key, pid, plan, b"", time.monotonic() + timeout]

    def _finish(self, fd, killed=False):
        key, pid, plan, buf, _ = self.live.pop(fd)
        self.sel.unregister(fd)
        os.close(fd)
        if killed:
            try:
                os.killpg(pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                os.kill(pid, signal.SIGKILL)
        _, status = os.waitpid(pid, 0)
        if killed:
            return key, plan, {"status": "timeout", "msg": "wall clock limit of a run"}
        if status or not buf:
            return key, plan, {"status": "error", "msg": f"run process ended with status {status}"}
        return key, plan, pickle.loads(buf)

    def map(self, items, timeout, deadline=None):
        """Yield (key, plan, result) for (key, plan) items."""
        items = iter(items)
        done = False
        try:
            while True:
                while not done and len(self.live) < self.workers:
                    if deadline is not None and time.monotonic() > deadline:
                        done = True
                        break
                    try:
                        key, plan = next(items)
                    except StopIteration:
                        done = True
                        break
                    self._start(key, plan, timeout)
                if not self.live:
                    return
                for k, _ in self.sel.select(0.5):
                    b = os.read(k.fd, 1 << 16)
                    if b:
                        self.live[k.fd][3] += b
                    else:
                        yield self._finish(k.fd)
                now = time.monotonic()
                for fd in [f for f, v in self.live.items() if now > v[4]]:
                    yield self._finish(fd, killed=True)
        finally:
            for fd in list(self.live):
                self._finish(fd, killed=True)

    def one(self, plan, timeout):
        for _, _, r in self.map([(0, plan)], timeout):
            return r


# --------------------------------------------------------------- minimisation
def same(r, kind):
    return r["status"] == "violation" and r["kind"] == kind \
        or r["status"] == "timeout" and kind == "hang"


def list_paths(plan, prefix=()):
    """Lists of the plan that may be shortened, as key paths."""
    for k, v in plan.items():
        if isinstance(v, list) and k in ("ops", "faults", "switches", "tasks", "history", "threads"):
            yield prefix + (k,)
        if isinstance(v, dict):
            yield from list_paths(v, prefix + (k,))
        elif isinstance(v, list):
            for i, x in enumerate(v):
                if isinstance(x, dict):
                    yield from list_paths(x, prefix + (k, i))


def get(plan, path):
    for k in path:
        plan = plan[k]
    return plan


def minimise(check, pool, plan, kind, timeout, budget_s):
    end = time.monotonic() + budget_s
    tried = 0

    def attempts(plans):
        """First of the candidate plans that still fails, tried in parallel."""
        nonlocal tried
        plans = list(plans)
        for s in range(0, len(plans), pool.workers):
            if time.monotonic() > end:
                return None
            good = []
            for i, p, r in pool.map(enumerate(plans[s:s + pool.workers]), timeout):
                tried += 1
                if same(r, kind):
                    good.append((i, p))
            if good:
                return min(good, key=lambda t: t[0])[1]
        return None

    changed = True
    while changed and time.monotonic() < end:
        changed = False
        for path in list(list_paths(plan)):
            try:
                n = max(1, len(get(plan, path)) // 2)
            except (KeyError, IndexError):
                continue
            while n >= 1 and time.monotonic() < end:
                try:
                    cur = get(plan, path)
                except (KeyError, IndexError):
                    break
                cands = []
                for i in range(0, len(cur), n):
                    p = copy.deepcopy(plan)
                    lst = get(p, path)
                    del lst[i:i + n]
                    if check.valid(p):
                        cands.append(p)
                best = attempts(cands)
                if best is not None:
                    plan, changed = best, True
                else:
                    n //= 2
        best = attempts(p for p in check.simpler(plan) if check.valid(p))
        if best is not None:
            plan, changed = best, True
    return plan, tried


# ---------------------------------------------------------------------- driver
def load_known():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding:"):
                fields = dict(w.split("=", 1) for w in line.split()[1:3])
                out.append((fields["property"], fields["key"], line))
    return out


def merge(d, e):
    for k, v in e.items():
        d[k] = d.get(k, 0) + v


class Check:
    id = "?"
    technique = "seeded deterministic simulation"
    runs = {"quick": 400, "thorough": 8000}
    wall = {"quick": 200., "thorough": 780.}
    timeout = 60.
    rule = ""
    real = []
    stubs = []
    assumptions = []
    state_measure = "distinct"

    def gen(self, rng, tier):
        raise NotImplementedError

    def run(self, plan, ctx):
        raise NotImplementedError

    def valid(self, plan):
        return True

    def simpler(self, plan):
        return []

    def fixed_plans(self):
        """Plans always executed first (regressions kept from the past)."""
        return []


def workers():
    return int(os.environ.get("SIM_WORKERS", 0)) or min(8, os.cpu_count() or 1)


def plans(check, seed, tier, n):
    for i, p in enumerate(check.fixed_plans()):
        yield ("fixed", i), p
    for i in range(n):
        s = subseed(seed, check.id, i)
        rng = random.Random(s)
        plan = check.gen(rng, tier)
        plan["run_seed"] = s
        yield ("seed", s), plan


def main_check(check):
    tier, seed = os.environ["VERIF_TIER"], int(os.environ["VERIF_SEED"])
    if tier not in ("quick", "thorough"):
        tier = "quick"
    print(f"seed={seed} property={check.id} tier={tier} workers={workers()}")
    t0 = time.monotonic()
    pool = Pool(check, workers())
    n = int(os.environ.get("SIM_RUNS", 0)) or check.runs[tier]
    st = {"runs": 0, "steps": 0, "faults": {}, "probes": {}, "states": set(),
          "digests": set(), "nontrivial": 0, "known": {}, "timeouts": 0}
    samples, bad, hung, errors = [], None, [], []
    first_digest = {}
    nontrivial_digests = set()
    gcw = t0 + check.wall[tier]
    for key, plan, r in pool.map(plans(check, seed, tier, n), check.timeout, gcw):
        st["runs"] += 1
        if r["status"] == "timeout":
            st["timeouts"] += 1
            hung.append((key, plan, r))
            if st["timeouts"] > 3:
                break
            continue
        if r["status"] == "error":
            errors.append(f"{key}: {r['msg']}")
            if len(errors) > 20:
                break
            continue
        st["steps"] += r["steps"]
        merge(st["faults"], r["faults"])
        merge(st["probes"], r["probes"])
        st["states"].update(r["states"])
        st["known"].update(r["known"])
        st["digests"].add(r["digest"])
        if r["nontrivial"]:
            st["nontrivial"] += 1
            nontrivial_digests.add(r["digest"])
        if len(first_digest) < 8 and key[0] == "seed":
            first_digest[key] = (plan, r["digest"])
        if len(samples) < 3 and r["nontrivial"]:
            samples.append({"plan": plan, "steps": r["steps"], "faults": r["faults"],
                            "log": r["digest"][:16], "tail": r["tail"][-6:]})
        if r["status"] == "violation":
            bad = (key, plan, r)
            break
    search_wall = time.monotonic() - t0
    # runs that were killed: once more, alone and with more time
    for key, plan, r in hung:
        if bad is None:
            r2 = pool.one(plan, 2 * check.timeout)
            if r2["status"] == "timeout":
                bad = (key, plan, dict(r, kind="hang"))
            elif r2["status"] == "violation":
                bad = (key, plan, r2)
            elif r2["status"] != "ok":
                errors.append(f"{key}: {r2['msg']}")

    # the same seeds again: the event logs must agree
    again = mismatch = 0
    if bad is None and not errors:
        for key, plan, r in pool.map([(k, v[0]) for k, v in first_digest.items()], check.timeout):
            again += 1
            mismatch += r.get("digest") != first_digest[key][1]

    replay = None
    if bad is not None:
        key, plan, r = bad
        kind = r["kind"]
        print(f"violated ({key[0]} {key[1]}): {kind}: {r['msg'][:600]}")
        repeats = [pool.one(plan, check.timeout) for _ in range(1 if kind == "hang" else 3)]
        ok = sum(same(x, kind) for x in repeats)
        if not ok:
            more = [pool.one(plan, check.timeout) for _ in range(5)]
            again_bad = [x for x in repeats + more if x["status"] == "violation"]
            if again_bad:
                kind, ok = again_bad[0]["kind"], 1
        if not ok:
            errors.append(f"violation of {key} could not be repeated: {kind}: {r['msg']}")
            bad = None
        else:
            small, tried = plan, 0
            if ok == len(repeats):
                budget = float(os.environ.get("SIM_MINIMISE_S", 0)) or (60. if tier == "quick" else 150.)
                if kind == "hang":
                    budget = 1.
                small, tried = minimise(check, pool, plan, kind, check.timeout, budget)
            final = pool.one(small, check.timeout)
            if not same(final, kind):
                small, final = plan, r
            os.makedirs(os.path.join(ROOT, "out"), exist_ok=True)
            replay = os.path.join(ROOT, "out", f"{check.id}-{key[1]}.json")
            with open(replay, "w") as f:
                json.dump({"property": check.id, "kind": kind, "msg": final.get("msg", r["msg"]),
                           "verif_seed": seed, "run_seed": plan.get("run_seed"),
                           "repeatable": f"{ok}/{len(repeats)}", "minimisation_runs": tried,
                           "digest": final.get("digest"), "tail": final.get("tail"),
                           "original_plan": plan, "plan": small}, f, indent=1)
            print("minimised:", json.dumps(small)[:1500])
            print("outcome:", final.get("msg", r["msg"])[:800])

    wall = time.monotonic() - t0
    listed = {k: line for p, k, line in load_known() if p == check.id}
    unlisted = {k: m for k, m in st["known"].items() if k not in listed}
    for k, m in sorted(st["known"].items()):
        if k in listed:
            print(f"KNOWN-FINDING: property={check.id} {k}: {m}")
    evidence = {
        "property": check.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": st["runs"],
            "distinct_nontrivial": len(nontrivial_digests),
            "rule": check.rule,
            "samples": samples,
            "simulated_runs": st["runs"],
            "nontrivial_runs": st["nontrivial"],
            "seeds_per_hour": int(st["runs"] / max(search_wall, 1e-9) * 3600),
            "simulated_steps": st["steps"],
            "simulated_time": "no clock in the library; covered time is counted in simulated steps",
            "faults_injected": dict(sorted(st["faults"].items())),
            "rare_conditions": dict(sorted(st["probes"].items())),
            "distinct_states": len(st["states"]),
            "distinct_states_measure": check.state_measure,
            "distinct_event_logs": len(st["digests"]),
            "reexecuted_runs": again,
            "reexecuted_log_mismatches": mismatch,
            "components_real": check.real,
            "components_stubbed": check.stubs,
            "known_findings_met": sorted(st["known"]),
            "run_timeouts": st["timeouts"],
            "workers": workers(),
        },
        "assumptions": check.assumptions,
        "wall_s": round(wall, 2),
        "violations": 1 if (bad is not None or unlisted) else 0,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", f".{check.id}.tmp")
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(tmp, os.path.join(ROOT, "evidence", f"{check.id}.json"))
    print(f"runs={st['runs']} nontrivial={st['nontrivial']} steps={st['steps']} states={len(st['states'])} "
          f"faults={sum(st['faults'].values())} wall={wall:.1f}s "
          f"again={again} mismatch={mismatch} errors={len(errors)}")
    if bad is not None:
        print(f"VIOLATION property={check.id} replay={replay}")
        return 1
    if unlisted:
        k, m = sorted(unlisted.items())[0]
        print(f"not listed in {KNOWN}: {k}: {m}")
        print(f"VIOLATION property={check.id} replay=none")
        return 1
    if errors:
        for e in errors[:4]:
            print("ERROR", e)
        return 2
    if st["runs"] == 0:
        print("ERROR nothing was run")
        return 2
    return 0


def main_replay(get_check, path):
    doc = json.load(open(path))
    check = get_check(doc["property"])
    r = Pool(check, 1).one(doc["plan"], check.timeout)
    print(json.dumps({k: r.get(k) for k in ("status", "kind", "msg", "digest")}, indent=1))
    for t in r.get("tail", []):
        print("  ", t)
    print("recorded digest", doc.get("digest"), "identical" if doc.get("digest") == r.get("digest") else "DIFFERENT")
    if r["status"] == "violation":
        print(f"VIOLATION property={doc['property']} replay={path}")
        return 1
    return 0 if r["status"] == "ok" else 2


def main_determinism(check, n):
    """Every seed twice, with different numbers of processes; compare logs."""
    seed, tier = int(os.environ["VERIF_SEED"]), os.environ["VERIF_TIER"]
    logs = []
    for w in (workers(), 3):
        logs.append({k: (r["status"], r.get("digest")) for k, _, r in
                     Pool(check, w).map(plans(check, seed, tier, n), check.timeout)})
    diff = [k for k in logs[0] if logs[0][k] != logs[1].get(k)]
    h = hashlib.sha256(repr(sorted(logs[0].items())).encode()).hexdigest()
    print(f"{check.id}: {len(logs[0])} seeds twice, {len(diff)} differ, digest {h[:16]}")
    for k in diff[:5]:
        print("  differs:", k, logs[0][k], logs[1].get(k))
    return 1 if diff else 0
