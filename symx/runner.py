"""Runs the harness cases of one property over all paths (8 worker processes),
replays every counterexample natively, writes the evidence file."""
import gc
import hashlib
import importlib
import json
import multiprocessing
import os
import signal
import subprocess
import sys
import time
import traceback
from multiprocessing.connection import wait

from . import core, harness, instrument
from .core import PathEnd, Unsupported, Inconclusive, EngineError, Signal
from .harness import HSym, HNat, ReplayFail, Skip, ev_deep, norm_obs
from .state import State, preload

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TBN = int(os.environ.get("SYMX_TB", "300"))
PATH_LIMIT_S = int(os.environ.get("SYMX_PATH_LIMIT", "60"))


class PathTimeout(Signal):
    pass


def _alarm(*_):
    raise PathTimeout()


# ----------------------------------------------------------- json for models
def model_to_json(m):
    out = {}
    for k, v in m.items():
        if k.startswith("@"):
            out[k] = [[a, bool(b)] for a, b in sorted(v[0].items())] + [bool(v[1])]
        else:
            out[k] = v
    return out


def model_from_json(d):
    m = core.Model()
    for k, v in d.items():
        if k.startswith("@"):
            m[k] = (dict((a, b) for a, b in v[:-1]), v[-1])
        else:
            m[k] = v
    return m


# ----------------------------------------------------------- one path
class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.state = State()

    def load(self):
        self.module = importlib.import_module("props." + self.prop)
        silence_logs()
        if hasattr(self.module, "warm"):
            self.module.warm()
        self.cases = list(self.module.cases(self.tier))
        preload()
        self.state.capture()


def silence_logs():
    try:
        from loguru import logger
        logger.remove()
    except Exception:
        pass


def run_path(ctx, case, prefix, model, conc):
    """-> dict describing the finished path"""
    ex = core.EX
    ctx.state.restore()
    h = HSym(conc)
    ex.begin(prefix, model)
    out = {"end": "done", "detail": ""}
    out_stream = sys.stdout
    signal.alarm(PATH_LIMIT_S)
    try:
        sys.stdout = _Null
        case.fn(h, *case.args)
    except PathEnd:
        out["end"] = "end"
    except Unsupported as e:
        out["end"] = "unsupported"
        out["detail"] = str(e)
    except Inconclusive as e:
        out["end"] = "inconclusive"
        out["detail"] = str(e)
    except PathTimeout:
        out["end"] = "timeout"
    except EngineError as e:
        out["end"] = "engine"
        out["detail"] = str(e) + " " + traceback.format_exc()[-1500:]
    except (KeyboardInterrupt, SystemExit) as e:
        if isinstance(e, SystemExit):
            out["end"] = "crash"
            out["detail"] = "SystemExit"
        else:
            raise
    except Exception as e:
        out["end"] = "crash"
        out["detail"] = "%s: %s" % (type(e).__name__, _safe(e))
        out["tb"] = _tb()
    finally:
        signal.alarm(0)
        sys.stdout = out_stream
        # the prefix positions stay consistent even after an abnormal end
        ex.end()
    if out["end"] in ("crash", "timeout"):
        try:
            ex.active = True
            ex._need_model()
            label = "unexpected exception" if out["end"] == "crash" else "no termination"
            h.violations.append((label + " " + out["detail"], core.Model(ex.model)))
        except Signal:
            pass
        finally:
            ex.active = False
    out["h"] = h
    return out


def _safe(e):
    try:
        return str(e)[:300]
    except BaseException:
        return "?"


def _tb():
    try:
        return traceback.format_exc()[-1500:]
    except BaseException:
        return ""


class _NullOut:
    def write(self, *a):
        return 0

    def flush(self):
        pass

    def isatty(self):
        return False
    encoding = "utf-8"


_Null = _NullOut()


# ----------------------------------------------------------- worker
def worker_main(ctx, conn):
    signal.signal(signal.SIGALRM, _alarm)
    ex = core.EX
    cur = None
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            return
        if msg is None:
            return
        ci, items, limit, conc, want_samples = msg
        case = ctx.cases[ci]
        if cur != ci:
            ex.new_case()
            cur = ci
        for k in ex.stats:
            ex.stats[k] = 0
        t0 = time.time()
        stack = list(items)
        res = dict(case=ci, paths=0, violations=[], known={}, labels={}, problems=[], samples=[], crashes=[],
                   completed=0, open=0)
        while stack:
            prefix, model = stack.pop()
            out = run_path(ctx, case, prefix, model, conc)
            h = out["h"]
            res["paths"] += 1
            if out["end"] == "done":
                res["completed"] += 1
            for k, v in h.labels.items():
                res["labels"][k] = res["labels"].get(k, 0) + v
            for label, m in h.violations:
                res["violations"].append((label, model_to_json(m), out.get("tb", "")))
            for kid, (label, m) in h.known.items():
                res["known"].setdefault(kid, (label, model_to_json(m)))
            if out["end"] in ("unsupported", "inconclusive", "engine"):
                res["problems"].append((out["end"], out["detail"]))
            if out["end"] == "done" and len(res["samples"]) < want_samples and not h.violations:
                try:
                    ex.active = True
                    ex._need_model()
                    m = ex.model
                    res["samples"].append((model_to_json(m), [norm_obs(ev_deep(o, m)) for o in h.observed]))
                except Signal:
                    pass
                finally:
                    ex.active = False
            stack.extend(ex.open)
            if time.time() - t0 > limit or len(res["violations"]) >= 3:
                break
        res["stack"] = stack
        res["stats"] = dict(ex.stats)
        res["encoded"] = (dict(instrument.ENCODED["modules"]), instrument.ENCODED["functions"])
        res["time"] = time.time() - t0
        try:
            conn.send(res)
        except (BrokenPipeError, OSError):
            return


# ----------------------------------------------------------- native replay
def replay_native(prop, tier, jobs, timeout):
    """jobs: [(case index, inputs)] -> list of (status, detail, observations)"""
    payload = json.dumps({"prop": prop, "tier": tier, "jobs": jobs})
    cmd = [sys.executable, os.path.join(VERIF, "check.py"), "--native"]
    try:
        p = subprocess.run(cmd, input=payload.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, env=dict(os.environ))
    except subprocess.TimeoutExpired:
        return None
    lines = p.stdout.decode("utf-8", "replace").splitlines()
    out = []
    for ln in lines:
        if ln.startswith("@@"):
            out.append(json.loads(ln[2:]))
    if len(out) < len(jobs):
        out.append(["dead", p.stderr.decode("utf-8", "replace")[-800:], []])
    return out


def native_main():
    """stdin: jobs; runs the harness on the unmodified modules"""
    d = json.load(sys.stdin)
    instrument.install_native()
    real = os.fdopen(os.dup(1), "w", encoding="utf-8")
    sys.stdout = _Null
    module = importlib.import_module("props." + d["prop"])
    silence_logs()
    if hasattr(module, "warm"):
        module.warm()
    cases = list(module.cases(d["tier"]))
    preload()
    st = State()
    st.capture()
    for ci, inputs in d["jobs"]:
        st.restore()
        h = HNat(model_from_json(inputs))
        case = cases[ci]
        status, detail = "ok", ""
        try:
            case.fn(h, *case.args)
        except ReplayFail as e:
            status, detail = "fail", "%s %s" % (e.label, e.detail)
        except Skip:
            status = "skip"
        except SystemExit:
            status, detail = "crash", "SystemExit"
        except Exception as e:
            status, detail = "crash", "%s: %s\n%s" % (type(e).__name__, _safe(e), _tb())
        real.write("@@" + json.dumps([status, detail, [norm_obs(o) for o in h.observed]]) + "\n")
        real.flush()


# ----------------------------------------------------------- master
class Master:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.nw = int(os.environ.get("SYMX_WORKERS", "0")) or min(8, os.cpu_count() or 1)
        quick = tier != "thorough"
        self.soft = float(os.environ.get("SYMX_SOFT", "45" if quick else "1500"))      # optional cases stop here
        self.hard = float(os.environ.get("SYMX_HARD", "600" if quick else "5400"))     # mandatory cases stop here

    def log(self, *a):
        print("[%s %.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def run(self):
        instrument.install()
        self.ctx = ctx = Ctx(self.prop, self.tier)
        try:
            ctx.load()
        except Signal:
            raise
        self.load_s = time.time() - self.t0
        self.n = len(ctx.cases)
        known_file = load_known()
        harness.KNOWN_IDS.update(k for k, v in known_file.items() if v["property"] == self.prop)
        self.info = [dict(paths=0, completed=0, labels={}, problems=[], done=False, cut=False, stats={}, time=0.0,
                          conc=False, samples=[]) for _ in ctx.cases]
        self.known = {}
        self.confirmed = None
        self.unreproduced = []
        self.validated = 0
        self.disagree = []
        gc.collect()
        self.workers = []
        for _ in range(self.nw):
            self.workers.append(self.spawn())
        status = 2
        try:
            self.phase([i for i in range(self.n)], conc=False)
            if self.confirmed is None:
                self.validate()
            redo = [i for i in range(self.n) if self.info[i]["problems"] and not self.info[i]["cut"]]
            if self.confirmed is None and redo:
                for i in redo:
                    pr = self.info[i]["problems"]
                    self.log("case %s: %d path(s) outside the symbolic models (%s); deciding that case by input "
                             "splitting" % (ctx.cases[i].name, len(pr), str(pr[0])[-TBN:]))
                    self.info[i]["problems_first"] = [str(x)[:300] for x in pr[:3]]
                    self.info[i]["problems"] = []
                    self.info[i]["conc"] = True
                    self.info[i]["done"] = False
                self.phase(redo, conc=True)
            status = self.verdict()
        finally:
            for p, *_ in self.workers:
                p.terminate()
            for p, *_ in self.workers:
                p.join()
        return status

    def spawn(self):
        mp = multiprocessing.get_context("fork")
        a, b = mp.Pipe()
        p = mp.Process(target=worker_main, args=(self.ctx, b))
        p.daemon = True
        p.start()
        b.close()
        return [p, a, None, None]

    # exploration
    def phase(self, idx, conc):
        ctx = self.ctx
        queue = []     # (case, items)
        for i in idx:
            queue.append((i, [([], None)]))
        # mandatory first, heavy first
        queue.sort(key=lambda q: (ctx.cases[q[0]].optional, -ctx.cases[q[0]].weight))
        pending = {i: 1 for i in idx}
        last = time.time()
        while True:
            now = time.time() - self.t0
            # cut
            if now > self.hard:
                for q in queue:
                    self.info[q[0]]["cut"] = True
                queue = []
            elif now > self.soft:
                keep = []
                for q in queue:
                    if ctx.cases[q[0]].optional:
                        self.info[q[0]]["cut"] = True
                        pending[q[0]] -= 1
                    else:
                        keep.append(q)
                queue = keep
            busy = [w for w in self.workers if w[2] is not None]
            idle = [w for w in self.workers if w[2] is None]
            for w in idle:
                if not queue:
                    break
                ci, items = queue.pop(0)
                few = len(queue) < 2 * self.nw
                limit = 0.25 if few and (now < 3 or len(items) > 1 or len(busy) < self.nw) else 1.5
                ns = 3 - len(self.info[ci]["samples"])
                w[1].send((ci, items, limit, conc, max(0, ns)))
                w[2:] = [ci, items]
                busy.append(w)
            if not busy:
                break
            if time.time() - last > 15:
                last = time.time()
                self.log("paths %d, queue %d" % (sum(x["paths"] for x in self.info), len(queue)))
            ready = wait([w[1] for w in busy], timeout=1.0)
            for w in busy:
                if w[1] not in ready:
                    continue
                try:
                    r = w[1].recv()
                except (EOFError, OSError):
                    # ended from outside (memory) or by the solver library: that part of the case stays open
                    ci = w[2]
                    w[0].join(5)
                    self.log("case %s: a worker ended unexpectedly" % ctx.cases[ci].name)
                    self.info[ci]["deaths"] = self.info[ci].get("deaths", 0) + 1
                    if self.info[ci]["deaths"] <= 2:
                        queue.append((ci, w[3]))
                    else:
                        self.info[ci]["cut"] = True
                        pending[ci] -= 1
                    self.deaths = getattr(self, "deaths", 0) + 1
                    if self.deaths > 20:
                        raise RuntimeError("workers keep ending")
                    w[:] = self.spawn()
                    continue
                w[2:] = [None, None]
                self.collect(r)
                ci = r["case"]
                pending[ci] -= 1
                if r["violations"]:
                    for v in r["violations"]:
                        self.violation(ci, v)
                        if self.confirmed:
                            return
                st = r["stack"]
                if st:
                    # shallow prefixes are the big ones: spread them
                    n = max(1, min(len(st), self.nw if len(queue) < self.nw else 1))
                    chunks = [st[k::n] for k in range(n)]
                    for c in chunks:
                        queue.append((ci, c))
                        pending[ci] += 1
                    if any(ctx.cases[q[0]].optional for q in queue):
                        queue.sort(key=lambda q: ctx.cases[q[0]].optional)
                if pending[ci] == 0:
                    self.info[ci]["done"] = True
        for i in idx:
            if pending.get(i) == 0 and not self.info[i]["cut"]:
                self.info[i]["done"] = True

    def collect(self, r):
        x = self.info[r["case"]]
        x["paths"] += r["paths"]
        x["completed"] += r["completed"]
        x["time"] += r["time"]
        for k, v in r["labels"].items():
            x["labels"][k] = x["labels"].get(k, 0) + v
        for k, v in r["stats"].items():
            x["stats"][k] = x["stats"].get(k, 0) + v
        mods, n = r["encoded"]
        instrument.ENCODED["modules"].update(mods)
        instrument.ENCODED["functions"] = max(instrument.ENCODED["functions"], n)
        x["problems"].extend(r["problems"])
        x["samples"].extend(r["samples"])
        for k, v in r["known"].items():
            self.known.setdefault(k, (r["case"], v))

    def violation(self, ci, v):
        label, inputs, tb = v
        tried = self.info[ci].setdefault("tried", 0)
        if tried >= 6:
            self.unreproduced.append((ci, label))
            return
        self.info[ci]["tried"] += 1
        if (ci, label) in self.unreproduced:
            return
        self.log("counterexample: case %s: %s: %s" % (self.ctx.cases[ci].name, label, json.dumps(inputs)[:600]))
        res = replay_native(self.prop, self.tier, [(ci, inputs)], PATH_LIMIT_S * 2)
        if res is None:
            res = [["fail", "no termination within %d s" % (PATH_LIMIT_S * 2), []]]
        st = res[0]
        if st[0] in ("fail", "crash", "dead") and not st[1].startswith("known:"):
            path = self.write_replay(ci, label, inputs, st)
            self.confirmed = (ci, label, inputs, st, path)
            self.log("reproduced on the unmodified code: %s" % st[1].strip()[:1500])
        else:
            self.log("does not reproduce (%s %s)%s" % (st[0], st[1][:300], (" " + tb[-TBN:]) if tb else ""))
            self.unreproduced.append((ci, label))
            self.info[ci]["problems"].append(("unreproduced", label + " " + tb[-400:]))

    def write_replay(self, ci, label, inputs, st):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s.json" % self.prop)
        with open(path, "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "case": self.ctx.cases[ci].name, "case_index": ci,
                       "label": label, "inputs": inputs, "observed": st[1],
                       "how": "python check.py --replay <this file>"}, f, indent=1)
        return path

    def validate(self):
        """paths of the symbolic run, replayed natively: same verdict and same observations"""
        jobs, want = [], []
        for i, x in enumerate(self.info):
            for inputs, obs in x["samples"]:
                jobs.append((i, inputs))
                want.append(obs)
        if not jobs:
            return
        jobs, want = jobs[:150], want[:150]
        res = replay_native(self.prop, self.tier, jobs, 240)
        if res is None:
            self.log("validation run did not finish")
            return
        for (ci, inputs), obs, r in zip(jobs, want, res):
            if r[0] == "ok" and r[2] == obs:
                self.validated += 1
            else:
                self.disagree.append((ci, inputs, r, obs))
                self.info[ci]["problems"].append(("encoding", "native %s %s %s / symbolic %s on %s" % (
                    r[0], r[1][-600:], str(r[2])[:300], str(obs)[:300], json.dumps(inputs)[:300])))
                if r[0] in ("fail", "crash") and not r[1].startswith("known:") and self.confirmed is None:
                    # concrete failure of the real code on an input of an explored path
                    path = self.write_replay(ci, r[1][:200], inputs, r)
                    self.confirmed = (ci, r[1][:200], inputs, r, path)
                    return

    def verdict(self):
        ctx = self.ctx
        mod = ctx.module
        incomplete = []
        problems = []
        vac = []
        for i, x in enumerate(self.info):
            c = ctx.cases[i]
            if not x["done"] and not c.optional:
                incomplete.append(c.name)
            if x["problems"] and not (c.optional and x["cut"]):
                problems.append((c.name, x["problems"][0]))
            if x["done"] and c.reach and not x["labels"]:
                vac.append(c.name)
        status = 0
        if self.confirmed:
            status = 1
        elif problems or vac or any(not x["labels"] for i, x in enumerate(self.info) if ctx.cases[i].name in incomplete):
            status = 2      # an unfinished case that reached its checks held on everything explored: reported, not an error
        for kid, (ci, (label, inputs)) in sorted(self.known.items()):
            res = replay_native(self.prop, self.tier, [(ci, inputs)], 120)
            if res and res[0][0] == "fail" and res[0][1].startswith("known:"):
                k = load_known().get(kid)
                if k:
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]), flush=True)
                elif not self.confirmed:
                    path = self.write_replay(ci, label, inputs, res[0])
                    self.confirmed = (ci, label, inputs, res[0], path)
                    status = 1
        self.evidence(status, incomplete, problems, vac)
        if problems:
            for n, p in problems[:4]:
                self.log("PROBLEM case %s: %s" % (n, str(p)[-2 * TBN:]))
        if incomplete:
            self.log("INCOMPLETE cases: %s" % incomplete[:10])
        if vac:
            self.log("VACUOUS cases: %s" % vac[:10])
        if status == 1:
            print("VIOLATION property=%s replay=%s" % (self.prop, self.confirmed[4]), flush=True)
        return status

    def evidence(self, status, incomplete, problems, vac):
        ctx = self.ctx
        mod = ctx.module
        tot = {}
        for x in self.info:
            for k, v in x["stats"].items():
                tot[k] = tot.get(k, 0) + v
        paths = sum(x["paths"] for x in self.info)
        labels = {}
        for x in self.info:
            for k, v in x["labels"].items():
                labels[k] = labels.get(k, 0) + v
        samples = []
        for i, x in enumerate(self.info):
            for inputs, obs in x["samples"][:1]:
                samples.append({"case": ctx.cases[i].name, "inputs": inputs, "observed": [o[:200] for o in obs[:6]]})
        if len(samples) > 12:
            step = len(samples) / 12.0
            samples = [samples[int(k * step)] for k in range(12)]
        optional_cut = [ctx.cases[i].name for i, x in enumerate(self.info) if x["cut"] and ctx.cases[i].optional]
        cov = {
            "states": paths,
            "transitions": tot.get("branches", 0),
            "traces_validated_against_impl": self.validated,
            "samples": samples,
            "states_meaning": "symbolic paths executed through the instrumented current sources; each stands for all "
                              "inputs satisfying its path condition",
            "transitions_meaning": "branch points decided by the solver (both outcomes explored when feasible)",
            "cases": self.n,
            "cases_completed": sum(1 for x in self.info if x["done"]),
            "cases_by_input_splitting": [ctx.cases[i].name for i, x in enumerate(self.info) if x["conc"]],
            "optional_cases_cut_by_time": len(optional_cut),
            "optional_cases_cut_names": optional_cut[:20],
            "assertions_evaluated": labels,
            "assertions_decided_by_solver": tot.get("checks", 0) - tot.get("checks_const", 0),
            "assertions_constant_on_their_path": tot.get("checks_const", 0),
            "solver_queries": tot.get("queries", 0),
            "solver_sat": tot.get("sat", 0),
            "solver_unsat": tot.get("unsat", 0),
            "solver_unknown": tot.get("unknown", 0),
            "solver_seconds": round(tot.get("solver_s", 0.0), 2),
            "value_splits": tot.get("concretizations", 0),
            "bounds": list(getattr(mod, "BOUNDS", [])),
            "outside": list(getattr(mod, "OUTSIDE", [])),
            "modules_encoded": {k: v for k, v in sorted(instrument.ENCODED["modules"].items())
                                if k.startswith("mahjong")},
            "functions_encoded": instrument.ENCODED["functions"],
            "functions_under_test": list(getattr(mod, "FUNCTIONS", [])),
            "solver": "z3 %s (C API)" % core.zz.version(),
            "incomplete_mandatory_cases": incomplete,
            "problems": [[n, str(p)[:400]] for n, p in problems[:10]],
            "vacuous_cases": vac,
            "encoding_disagreements": len(self.disagree),
            "known_findings_seen": sorted(self.known),
            "exhaustive": status == 0 and not optional_cut,
        }
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": cov, "assumptions": list(getattr(mod, "ASSUMES", [])),
            "wall_s": round(time.time() - self.t0, 2), "violations": 1 if self.confirmed else 0,
        }
        if self.confirmed:
            ci, label, inputs, st, path = self.confirmed
            cov["violation"] = {"case": ctx.cases[ci].name, "label": label, "inputs": inputs, "observed": st[1][:800]}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        self.log("status %d: %d cases, %d paths, %d queries (%.1f s solver), %d checks (%d const), validated %d, cut %d" % (
            status, self.n, paths, cov["solver_queries"], cov["solver_seconds"], tot.get("checks", 0),
            tot.get("checks_const", 0), self.validated, len(optional_cut)))


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    try:
        with open(p) as f:
            d = json.load(f)
    except FileNotFoundError:
        return {}
    return {k["id"]: k for k in d.get("findings", [])}
