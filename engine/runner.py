"""Runs the symbolic tasks of a check, replays counterexamples, writes evidence."""
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

from . import build
from . import terms as tm
from .smt import STATS, Stats, Unsupported
from .llvmir import Module

VERIF = build.VERIF


class Result:
    """Outcome of one symbolic task (plain data, crosses process boundaries)."""

    def __init__(self):
        self.task = None
        self.findings = []
        self.inconclusive = None
        self.error = None
        self.stats = {}
        self.funcs = []
        self.instrs = 0
        self.paths = 0
        self.asserts = 0
        self.trivial = 0
        self.reached = {}
        self.wall = 0.0
        self.extra = {}
        self.witnesses = []


def demangle(names):
    try:
        p = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        return p.stdout.split("\n")[:len(names)]
    except Exception:
        return list(names)


_mods = {}


def load(path):
    m = _mods.get(path)
    if m is None:
        m = _mods[path] = Module(path)
    return m


def execute(task):
    """task: dict(module, entry, cfg, options, setup) -> Result"""
    from .machine import Machine, Inconclusive
    r = Result()
    r.task = {k: v for k, v in task.items() if k in ("entry", "cfg", "name")}
    t0 = time.time()
    tm.reset()
    tm.clear_var_ranges()
    s0 = dict(STATS.__dict__)
    m = None
    try:
        mod = load(task["module"])
        opts = dict(task.get("options") or {})
        budget = opts.pop("budget", None)
        attrs = opts.pop("attrs", {})
        m = Machine(mod, task.get("cfg"), **opts)
        tm.REAL[0] = bool(m.real)
        for k, v in attrs.items():
            setattr(m, k, v)
        if budget:
            m.deadline = time.time() + budget
        setup = task.get("setup")
        if setup:
            import importlib
            modname, fname = setup
            getattr(importlib.import_module(modname), fname)(m, task)
        st = m.start(task["entry"], task.get("args") or ())
        m.run(st)
        fin = getattr(m, "finish", None)
        if fin:
            fin(m, r)
    except (Inconclusive, Unsupported) as e:
        r.inconclusive = "%s: %s" % (type(e).__name__, e)
    except RecursionError:
        r.error = "recursion limit"
    except Exception:
        r.error = traceback.format_exc()
    if m is not None:
        for f in m.findings:
            r.findings.append({"kind": f.kind, "msg": f.msg, "loc": f.loc, "model": f.model, "stack": f.stack[-6:]})
        r.funcs = sorted(m.funcs_run)
        r.instrs = m.instr_count
        r.paths = m.completed
        r.asserts = m.asserts
        r.trivial = m.trivial_asserts
        r.reached = m.reached
        r.witnesses = m.witnesses
        if m.unwind_hits:
            r.extra["unwind"] = len(m.unwind_hits)
    r.stats = {k: STATS.__dict__[k] - s0[k] for k in s0}
    r.wall = time.time() - t0
    return r


def _worker(task):
    return execute(task)


class Check:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        self.results = []
        self.notes = []
        self.assumptions = []
        self.violations = []
        self.known = []
        self.errors = []
        self.inconclusive = []
        self.spurious = []
        self.level = "model_checking"
        self.extra = {}
        self.replays = 0
        self.replay_ok = 0
        self.validated = 0
        self.values_compared = 0
        self.known_list = self._load_known()

    def _load_known(self):
        p = os.path.join(VERIF, "known_findings.txt")
        out = []
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l.startswith("known: property=%s " % self.prop):
                    out.append(l.split(" ", 2)[2])
        return out

    def quick(self):
        return self.tier == "quick"

    def budget_left(self, total):
        return total - (time.time() - self.t0)

    def bc(self, name, sources, **kw):
        return build.compile_bc(self.work, name, sources, **kw)

    def native(self, name, sources, **kw):
        """Builds the harness natively in the background; call the result to
        get the path of the executable."""
        ex = ThreadPoolExecutor(1)
        fut = ex.submit(build.compile_native, self.work, name, sources, **kw)
        return fut.result

    def run(self, tasks, jobs=8, stop_early=True):
        """Execute tasks in parallel; results in completion order."""
        out = []
        if not tasks:
            return out
        mods = {t["module"] for t in tasks}
        for p in mods:
            load(p)  # parsed once, inherited by the workers
        ctx = mp.get_context("fork")
        with ctx.Pool(min(jobs, len(tasks)), maxtasksperchild=20) as pool:
            for r in pool.imap_unordered(_worker, tasks, chunksize=1):
                out.append(r)
                self.results.append(r)
                if os.environ.get("VERIF_VERBOSE"):
                    print("  task %s %s: %.1fs paths=%d asserts=%d/%d q=%d st=%.1fs %s %s" % (
                        r.task.get("name") or r.task["entry"], json.dumps(r.task.get("cfg")), r.wall, r.paths,
                        r.asserts, r.trivial, r.stats.get("queries", 0), r.stats.get("time", 0),
                        r.inconclusive or "", (r.error or "")[-600:]), flush=True)
                    for f in r.findings:
                        print("     ", f["kind"], f["msg"], f["loc"], {k: f["model"][k] for k in list(f["model"])[:24]})
                if stop_early and r.findings and sum(1 for x in out if x.findings) >= 4:
                    pool.terminate()
                    break
        return out

    # ---- replay
    def write_model(self, path, cfg, model, floats=()):
        with open(path, "w") as f:
            for k, v in (cfg or {}).items():
                f.write("cfg %s %d\n" % (k, v))
            for k, v in model.items():
                if isinstance(v, str):
                    v = self._rat(v)
                f.write("val %s %s\n" % (k.replace(" ", "_"), v))

    @staticmethod
    def _rat(s):
        s = s.replace("?", "")
        try:
            if "/" in s:
                a, b = s.split("/")
                return repr(float(int(a)) / float(int(b)))
            return repr(float(s))
        except Exception:
            return "0"

    def replay(self, exe, task, model, env=None, timeout=120):
        p = os.path.join(self.work, "model_%d.txt" % self.replays)
        self.write_model(p, task.get("cfg"), model)
        self.replays += 1
        e = dict(os.environ)
        e.pop("RUY_PATHS", None)
        e["VERIF_MODEL"] = p
        e["VERIF_ENTRY"] = task["entry"]
        e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1"
        if env:
            e.update(env)
        try:
            q = subprocess.run([exe], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout, errors="replace")
            return q.returncode, q.stdout[-60000:], p
        except subprocess.TimeoutExpired:
            return -999, "timeout", p

    def confirm(self, exe, r, f, env=None):
        """Replays one finding; records a violation if the real code shows it."""
        rc, out, mp_ = self.replay(exe(), r.task, f["model"], env)
        if rc in (0, 77, 78):
            self.spurious.append("%s %s (%s): not reproduced: %s" % (f["kind"], f["msg"], r.task, out.strip()[-200:]))
            return False
        self.replay_ok += 1
        self.report(f, r.task, out, mp_)
        return True

    def report(self, f, task, output, model_path=None):
        desc = "%s: %s" % (f["kind"], f["msg"])
        for k in self.known_list:
            if k.startswith(desc) or desc.startswith(k.split(" |")[0]):
                self.known.append(k)
                return
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        n = len(self.violations)
        path = os.path.join(d, "%s_%d.txt" % (self.prop, n))
        with open(path, "w") as o:
            o.write("property %s\n%s\nat %s\ntask %s\nstack %s\n\nmodel:\n" % (
                self.prop, desc, f.get("loc"), json.dumps(task), f.get("stack")))
            for k, v in f["model"].items():
                o.write("  %s = %s\n" % (k, v))
            o.write("\nreplay on the real code:\n%s\n" % output)
            if model_path:
                o.write("\nmodel file:\n%s\n" % open(model_path).read())
        self.violations.append((desc, path))

    def process(self, results, exe, env=None, limit=6):
        """Confirms findings and checks witnesses natively. exe() -> path"""
        n = 0
        for r in results:
            if r.error:
                self.errors.append("%s: %s" % (r.task, r.error))
            if r.inconclusive:
                self.inconclusive.append("%s: %s" % (r.task, r.inconclusive))
            for f in r.findings:
                if n >= limit:
                    break
                n += 1
                self.confirm(exe, r, f, env)
                if len(self.violations) >= 3:
                    return
        self.validate(results, exe)

    def validate(self, results, exe, limit=24):
        """Runs the real code on inputs of explored paths: it must behave as the
        symbolic execution predicted (guards against a wrong translation)."""
        todo = [(r, w) for r in results if not r.findings for w in r.witnesses][:limit]
        if self.violations:
            return
        for r, (model, outs) in todo:
            rc, out, _ = self.replay(exe(), r.task, model)
            if rc in (77, 78):
                continue
            if rc != 0:
                self.errors.append("translation mismatch: %s: %s (%s)" % (out[-300:], r.task, model))
                continue
            self.validated += 1
            got = dict(l.split(" ")[1:3] for l in out.split("\n") if l.startswith("OUT "))
            for n, v in outs.items():
                self.values_compared += 1
                if got.get(n) != str(v):
                    self.errors.append("translation mismatch: %s: %s is %s, predicted %s" % (r.task, n, got.get(n), v))

    # ---- final
    def finish(self, require_reach=()):
        tot = Stats()
        funcs = set()
        instrs = paths = asserts = trivial = 0
        reached = {}
        for r in self.results:
            for k, v in r.stats.items():
                setattr(tot, k, getattr(tot, k) + v)
            funcs.update(r.funcs)
            instrs += r.instrs
            paths += r.paths
            asserts += r.asserts
            trivial += r.trivial
            for k, v in r.reached.items():
                reached[k] = reached.get(k, 0) + v
        for k in require_reach:
            if k not in reached and not self.violations and not any(r.findings for r in self.results):
                self.errors.append("vacuous: %s never reached" % k)
        if asserts == 0 and not self.extra.get("obligations") and not self.violations and not any(
                r.findings for r in self.results):
            self.errors.append("vacuous: no assertion reached")
        names = sorted(n for n in funcs if "ruy" in n or not n.startswith("_ZNSt"))
        dn = demangle(names)
        cov = {
            "states": max(paths, 1),
            "transitions": instrs,
            "traces_validated_against_impl": self.validated + self.replay_ok,
            "values_compared_with_native_runs": self.values_compared,
            "samples": [{"task": json.dumps(r.task), "paths": r.paths, "asserts": r.asserts,
                         "wall_s": round(r.wall, 2)} for r in self.results[:5]],
            "symbolic_tasks": len(self.results),
            "assertions_decided": asserts,
            "assertions_closed_by_normal_form": trivial,
            "solver_queries": tot.queries,
            "solver_unsat": tot.unsat,
            "solver_sat": tot.sat,
            "solver_unknown": tot.unknown,
            "solver_time_s": round(tot.time, 2),
            "functions_encoded": [d for d in dn if "ruy::" in d][:200],
            "functions_encoded_count": len(names),
            "assertion_messages": reached,
            "inconclusive_tasks": self.inconclusive,
            "unconfirmed_counterexamples": self.spurious,
            "bounds": self.notes,
        }
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions or ["see DESIGN.md"], "wall_s": round(time.time() - self.t0, 2),
              "violations": [{"what": d, "replay": p} for d, p in self.violations]}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.work, ignore_errors=True)
        for k in dict.fromkeys(self.known):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for e in self.errors[:5]:
            print("ERROR: " + e[:1500])
        for e in self.inconclusive[:5]:
            print("INCONCLUSIVE: " + e[:600])
        for e in self.spurious[:5]:
            print("UNCONFIRMED: " + e[:600])
        print("%s %s: tasks=%d paths=%d asserts=%d (normal form %d) queries=%d solver=%.1fs wall=%.1fs" % (
            self.prop, self.tier, len(self.results), paths, asserts, trivial, tot.queries, tot.time,
            time.time() - self.t0))
        if self.violations:
            for d, p in self.violations:
                print("violation: " + d)
            print("VIOLATION property=%s replay=%s" % (self.prop, self.violations[0][1]))
            return 1
        if self.errors or self.inconclusive or self.spurious:
            return 2
        return 0
