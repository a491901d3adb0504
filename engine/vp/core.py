"""Obligations, evidence, known findings, exit codes."""
import json, os, re, sys, time, traceback
from . import build
from .facts import Crate
from .interp import Interp, Limit
from .term import T, show

CHECKS = {}


def check(pid, units=("vertigo",)):
    def deco(f):
        CHECKS[pid] = (f, units)
        return f
    return deco


class Anchor(Exception):
    """something the rule is stated over is not in the tree (fail closed)"""


class Cx:
    def __init__(self, pid, tier, units):
        self.pid, self.tier = pid, tier
        self.units = units
        self.obs = []          # (rule, where, ok, detail)
        self.cov = {"functions_analysed": set(), "paths": 0, "states": 0, "inlined_bodies": set(), "sites": 0}
        self.samples = []
        self.notes = []
        self._cr = {}
        self.paths_, self.hash, self.nfiles = build.facts(list(units)) if units else ({}, "", 0)

    def crate(self, unit="vertigo"):
        if unit not in self._cr:
            self._cr[unit] = Crate(self.paths_[unit])
        return self._cr[unit]

    # --- obligations
    def ob(self, rule, where, ok, detail=""):
        self.obs.append((rule, where, bool(ok), detail))
        return bool(ok)

    def floor(self, what, n, least):
        """hand-counted minimum: an analysis that suddenly sees fewer sites is not a pass"""
        self.ob("floor:" + what, "analysis", n >= least, f"{n} {what} seen, at least {least} expected")

    def note(self, s):
        self.notes.append(s)

    # --- functions
    def fn(self, path, unit="vertigo"):
        cr = self.crate(unit)
        i = cr.inst(path)
        if i is None:
            # an extracted/renamed module: accept a unique function with the same last two segments
            tail = "::".join(path.split("::")[-2:])
            c = [p for p in cr.by_path if p.endswith("::" + tail) or p.endswith("::" + tail.split("::")[-1]) and tail in p]
            c = [p for p in c if "{closure" not in p]
            if len(c) == 1:
                i = cr.inst(c[0])
        if i is None:
            raise Anchor(f"function {path} not found")
        return i

    def run(self, entry, watch, unit="vertigo", **k):
        """paths of `entry` (path string or inst) with events matching any regex in `watch`"""
        cr = self.crate(unit)
        inst = self.fn(entry, unit) if isinstance(entry, str) else entry
        if isinstance(watch, (list, tuple)):
            rx = [re.compile(w) for w in watch]
            wf = lambda p, tp: any(r.search(p) or (tp and r.search(tp)) for r in rx)
        else:
            wf = watch
        args = k.pop("args", None)
        facts = k.pop("facts", None)
        it = Interp(cr, watch=wf, **k)
        ps = it.run(inst, args=args, facts=facts)
        self.last = it
        self.cov["functions_analysed"].add(inst["p"])
        self.cov["inlined_bodies"] |= {cr.insts[i]["p"] for i in it.inlined}
        self.cov["paths"] += len(ps)
        self.cov["states"] += it.steps
        return ps

    def fn_opt(self, path, unit="vertigo"):
        try:
            return self.fn(path, unit)
        except Anchor:
            return None

    def file(self, rel):
        """text of a file of the repository"""
        p = os.path.join(build.REPO, rel)
        if not os.path.exists(p):
            raise Anchor(f"file {rel} not found")
        return open(p, encoding="utf-8").read()

    def need(self, cond, what):
        if not cond:
            raise Anchor(what)
        return cond


def load_known():
    known, fixed = {}, []
    p = os.path.join(build.VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            m = re.match(r"known: property=(\S+) key=\[(.*?)\] :: (.*)$", line)
            if m:
                known[(m.group(1), m.group(2))] = m.group(3)
    return known


def run_check(pid, tier="quick"):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    f, units = CHECKS[pid]
    evdir = os.environ.get("VP_EVID") or os.path.join(build.VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    cx = None
    try:
        cx = Cx(pid, tier, units)
        f(cx)
    except Anchor as e:
        if cx is None:
            cx = _bare(pid, tier)
        cx.ob("anchor", "analysis", False, str(e))
    except Limit as e:
        cx.ob("analysis-incomplete", "analysis", False, str(e))
    except build.BuildError as e:
        cx = _bare(pid, tier)
        cx.ob("facts", "build", False, str(e)[-1500:])
    except Exception:
        if cx is None:
            cx = _bare(pid, tier)
        cx.ob("analysis-error", "analysis", False, traceback.format_exc()[-1800:])
    known = load_known()
    bad = [o for o in cx.obs if not o[2]]
    new, old = [], []
    for rule, where, ok, detail in bad:
        key = f"{rule} @ {where}"
        if (pid, key) in known:
            old.append((key, known[(pid, key)]))
        else:
            new.append((key, detail))
    rules = {}
    for rule, where, ok, detail in cx.obs:
        r = rules.setdefault(rule, [0, 0])
        r[0] += 1
        r[1] += ok
    cov = {
        "explanation": "Static rules over the compiler's MIR (and, where stated, the TypeScript syntax tree) of the current tree; "
                       "every obligation below is a construct-level fact the rule demands on every control-flow path.",
        "functions_analysed": sorted(cx.cov["functions_analysed"]),
        "bodies_inlined": len(cx.cov["inlined_bodies"]),
        "cfg_paths": cx.cov["paths"],
        "abstract_states": cx.cov["states"],
        "obligations": len(cx.obs),
        "obligations_met": len(cx.obs) - len(bad),
        "rules": {k: {"obligations": v[0], "met": v[1]} for k, v in sorted(rules.items())},
        "units": list(units),
        "source_files_hashed": cx.nfiles,
        "source_hash": cx.hash,
    }
    if cx.notes:
        cov["notes"] = cx.notes[:40]
    cov["sites"] = [f"{'ok ' if o[2] else 'BAD'} {o[0]} @ {o[1]}" + (f": {o[3]}" if o[3] and not o[2] else "") for o in cx.obs][:400]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
        "wall_s": round(time.time() - t0, 2),
        "assumptions": cx.assumptions if hasattr(cx, "assumptions") else [],
        "violations": [f"{k}: {d[:600]}" for k, d in new],
    }
    json.dump(ev, open(os.path.join(evdir, pid + ".json"), "w"), indent=1)
    for k, what in sorted(set(old)):
        print(f"KNOWN-FINDING: property={pid} {k} :: {what}")
    if new:
        rp = os.path.join(evdir, pid + ".violation.txt")
        with open(rp, "w") as fh:
            for k, d in new:
                fh.write(f"{k}\n    {d}\n")
        for k, d in new[:25]:
            print(f"  {k}\n      {d[:700]}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    print(f"{pid}: {len(cx.obs) - len(bad)} obligations met, {cx.cov['paths']} paths, {cx.cov['states']} states, {time.time() - t0:.1f}s")
    return 0


def _bare(pid, tier):
    c = Cx.__new__(Cx)
    c.pid, c.tier, c.units, c.obs, c.notes, c.hash, c.nfiles = pid, tier, (), [], [], "", 0
    c.cov = {"functions_analysed": set(), "paths": 0, "states": 0, "inlined_bodies": set(), "sites": 0}
    return c
