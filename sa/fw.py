"""Check framework: scenarios (driver + property automaton) analysed in parallel; evidence; verdict."""
import hashlib
import os, sys, json, time, traceback, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import engine, models, ir
from engine import Rule, Engine, Violation, Stop, AnalysisLimit, fmt
from ir import BuildError

DEF_ENV = {"MONITOR_SHOOTDOWN_SIGNAL": (0,), "MONITOR_NO_SYSTEM_OVERRIDE": (0,)}


class Scn:
    """one analysis: library (mode, configuration) + driver + automaton"""

    def __init__(self, name, src, rule, modes=("dynamic", "static"), opts=None, cfg="default", args=(), defs=(),
                 need=(), ends=True, cap=400, budget=600, entry="vf_main", maxsteps=30_000_000, post=None):
        self.name, self.src, self.rule, self.modes = name, src, rule, modes
        self.opts = dict(opts or {})
        ge = dict(DEF_ENV)
        ge.update(self.opts.get("getenv", {}))
        self.opts["getenv"] = ge
        self.cfg, self.args, self.defs, self.need = cfg, tuple(args), tuple(defs), tuple(need)
        self.ends, self.cap, self.budget, self.entry, self.maxsteps = ends, cap, budget, entry, maxsteps
        self.post = post


class P:
    """immutable record used as automaton state"""
    __slots__ = ()

    @staticmethod
    def get(t, k, d=None):
        for a, b in t:
            if a == k:
                return b
        return d

    @staticmethod
    def set(t, **kw):
        r = dict(t)
        r.update(kw)
        return tuple(sorted(r.items()))


class Auto(Rule):
    """automaton with dict-like state; subclasses define ev_<kind>(s, ev) -> None (mutate self.s)"""
    start = {}

    def init(self):
        return tuple(sorted(self.start.items()))

    def on(self, st, ev):
        f = getattr(self, "ev_" + ev.kind, None)
        if f is None:
            return st.prop
        s = dict(st.prop)
        f(s, ev)
        return tuple(sorted(s.items()))

    def end(self, st, how):
        f = getattr(self, "at_end", None)
        if f is not None:
            try:
                f(dict(st.prop), how, st)
            except Violation as e:
                e.st = st
                raise


def need(cond, msg):
    if not cond:
        raise Violation(msg)


_JOBS = None


def _limit():
    """a worker that needs too much memory fails by itself"""
    import resource
    n = int(3.6 * (1 << 30))
    resource.setrlimit(resource.RLIMIT_AS, (n, n))


def _job(i):
    ws, scn, mode, wd = _JOBS[i]
    t0 = time.time()
    r = {"name": scn.name, "mode": mode, "error": None, "limit": None, "violations": [], "stats": {}, "fns": [],
         "events": {}, "ends": {}}
    try:
        txt = '#include "%s/drv/vf.h"\n#line 1 "driver:%s"\n' % (HERE, scn.name) + scn.src
        tag = "%d_%s" % (i, hashlib.sha1(txt.encode()).hexdigest()[:12])
        d = os.path.join(wd, "drv" + tag)
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "s%s.c" % tag)
        with open(f, "w") as h:
            h.write(txt)
        p = ws.program(mode, [f], cfg=scn.cfg, args=scn.args, defs=scn.defs)
        def analyse(cap, budget):
            rule = scn.rule()
            rule.mode = mode
            rule.prog = p
            eng = Engine(p, rule, cap=cap, maxsteps=scn.maxsteps, budget=budget, opts=dict(scn.opts))
            lim = None
            try:
                eng.explore(eng.initial(scn.entry))
            except AnalysisLimit as e:
                lim = str(e)
            if scn.post is not None:
                scn.post(eng, rule)
            return eng, lim
        r["program"] = {"units": len(p.units), "functions": sum(1 for F in p.fns.values() if not F.tu.startswith("drv_")),
                        "instructions": sum(len(B.ins) for F in p.fns.values() if not F.tu.startswith("drv_") for B in F.blocks)}
        eng, r["limit"] = analyse(scn.cap, scn.budget)
        if eng.violations and eng.stats.get("joins"):
            # the joins may have lost the decisive information: analyse again without them
            e2, l2 = analyse(10 ** 9, min(scn.budget, 400))
            if l2 is None or e2.violations:
                eng, r["limit"] = e2, l2
        for v in eng.violations.values():
            v = dict(v)
            v["scenario"] = scn.name
            v["mode"] = mode
            r["violations"].append(v)
        r["stats"] = eng.stats
        r["fns"] = sorted(k for k in eng.fnseen if not p.fns[k].tu.startswith("drv_"))
        r["events"] = eng.evcount
        r["ends"] = eng.endcount
        if r["limit"] is None and not r["violations"]:
            for n in scn.need:
                if not any(k.startswith(n) for k in eng.evcount):
                    r["violations"].append({"rule": "never happens on any path: %s" % n, "where": "scenario " + scn.name, "path": [],
                                            "scenario": scn.name, "mode": mode})
            if scn.ends and not [k for k in eng.endcount if k not in ("cut", "unreachable")]:
                r["violations"].append({"rule": "no path reaches the end of the scenario", "where": "scenario " + scn.name, "path": [],
                                        "scenario": scn.name, "mode": mode})
    except BuildError as e:
        r["error"] = "build: " + str(e)
    except MemoryError:
        r["limit"] = "memory"
    except Exception as e:
        r["error"] = "internal: " + repr(e) + traceback.format_exc()[-1500:]
    r["wall"] = round(time.time() - t0, 2)
    return r


def _parallel(n, jobs):
    """run the jobs in worker processes; if one is killed (memory of the machine), go on with fewer"""
    from concurrent.futures import ProcessPoolExecutor
    from concurrent.futures.process import BrokenProcessPool
    res = [None] * n
    while jobs:
        todo = [i for i in range(n) if res[i] is None]
        with ProcessPoolExecutor(min(jobs, len(todo)), mp.get_context("fork"), _limit) as pool:
            fs = [(i, pool.submit(_job, i)) for i in todo]
            broken = False
            for i, f in fs:
                try:
                    res[i] = f.result()
                except BrokenProcessPool:
                    broken = True
        if not broken:
            return res
        jobs //= 2
    raise RuntimeError("worker processes are killed (memory)")


def known(pid):
    """known findings for this property: list of (match text, description)"""
    out = []
    try:
        for line in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                if rest.startswith("match="):
                    m, _, d = rest[6:].partition(" :: ")
                    out.append((m, d))
    except OSError:
        pass
    return out


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.ws = ir.Workspace()
        self.results = []
        self.violations = []
        self.errors = []
        self.extra = {}
        self.t0 = time.time()

    def violation(self, scenario, where, rule, mode=None):
        """a violation found by an inspection outside the engine"""
        self.violations.append({"rule": rule, "where": where, "path": [], "scenario": scenario, "mode": mode})

    def run(self, scns, jobs=8):
        global _JOBS
        only = os.environ.get("VF_ONLY")
        if only:
            scns = [s for s in scns if only in s.name]
        lst = []
        wanted = []
        for s in scns:
            for m in s.modes:
                if os.environ.get("VF_MODE", m) != m:
                    continue
                lst.append((self.ws, s, m, self.ws.root))
                if (s.cfg, s.args, m, s.defs) not in wanted:
                    wanted.append((s.cfg, s.args, m, s.defs))
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda x: self.ws.config(*x), sorted({(c, a) for c, a, m, d in wanted})))
        for c, a, m, d in wanted:
            self.ws.program(m, (), cfg=c, args=a, defs=d)
        _JOBS = lst
        if len(lst) == 1 or os.environ.get("VF_SERIAL"):
            res = [_job(i) for i in range(len(lst))]
        else:
            res = _parallel(len(lst), min(jobs, len(lst)))
        for r in res:
            self.results.append(r)
            self.violations += r["violations"]
            if r["error"]:
                self.errors.append("%s/%s: %s" % (r["name"], r["mode"], r["error"]))
            if r["limit"]:
                self.errors.append("%s/%s: analysis limit: %s" % (r["name"], r["mode"], r["limit"]))
        return res


def main(pid, tier):
    import importlib
    t0 = time.time()
    ctx = Ctx(pid, tier)
    code = 2
    try:
        mod = importlib.import_module("props." + pid)
        try:
            mod.check(ctx)
        except BuildError as e:
            ctx.errors.append("build: " + str(e))
        kn = known(pid)
        fresh = []
        hit = {}
        for v in ctx.violations:
            text = "%s @ %s [%s]" % (v["rule"], v["where"], v.get("scenario", ""))
            for m, d in kn:
                if m in text:
                    hit.setdefault(m, (d, v))
                    break
            else:
                fresh.append(v)
        for m, (d, v) in hit.items():
            print("KNOWN-FINDING: property=%s %s" % (pid, d))
        evd = os.environ.get("VF_EVD") or os.path.join(VERIF, "evidence")
        os.makedirs(evd, exist_ok=True)
        fns = sorted({f for r in ctx.results for f in r["fns"]})
        tot = {}
        for r in ctx.results:
            for k, x in r["stats"].items():
                tot[k] = tot.get(k, 0) + x
        cov = {"explanation": mod.EXPLAIN,
               "scenarios": [{"name": r["name"], "mode": r["mode"], "program": r.get("program"), "stats": r["stats"],
                              "path_ends": r["ends"], "wall_s": r["wall"]} for r in ctx.results],
               "functions_analysed": len(fns), "functions": fns, "totals": tot,
               "call_events": _merge([r["events"] for r in ctx.results])}
        cov.update(ctx.extra)
        ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
              "coverage": cov, "assumptions": getattr(mod, "ASSUME", []) + ASSUME, "wall_s": round(time.time() - t0, 2),
              "violations": len(fresh)}
        if ctx.errors:
            ev["coverage"]["errors"] = ctx.errors
        with open(os.path.join(evd, pid + ".json"), "w") as h:
            json.dump(ev, h, indent=1)
        if fresh:
            rp = os.path.join(evd, pid + ".violation.json")
            with open(rp, "w") as h:
                json.dump(fresh, h, indent=1)
            for v in fresh[:6]:
                print("%s: %s at %s (%s, %s)" % (pid, v["rule"], v["where"], v.get("scenario"), v.get("mode")))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            code = 1
        elif ctx.errors:
            for k, e in enumerate(ctx.errors[:8]):
                print("ERROR %s: %s" % (pid, e if k == 0 else e[:160].replace("\n", " ")))
            code = 2
        else:
            print("OK %s: %d analyses, %d functions, %s abstract states, %s steps, %.1f s" % (
                pid, len(ctx.results), len(fns), tot.get("states"), tot.get("steps"), time.time() - t0))
            code = 0
    finally:
        ctx.ws.close()
    return code


ASSUME = [
    "x86-64 Linux/glibc semantics of the real functions as modelled in sa/models.py",
    "the client and application behave as one of the analysed drivers (callbacks return arbitrary values)",
    "sequentially consistent memory; compiler and linker are correct",
]


def _merge(ds):
    o = {}
    for d in ds:
        for k, v in d.items():
            o[k] = o.get(k, 0) + v
    return dict(sorted(o.items(), key=lambda x: -x[1])[:120])
