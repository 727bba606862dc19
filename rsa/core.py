"""Check framework: findings, known findings, evidence, exit codes."""
import json
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Finding:
    def __init__(self, rule, where, construct, message, line=None):
        """where: 'file:qualname'.  The key never contains line numbers."""
        self.rule = rule
        self.where = where
        self.construct = construct
        self.message = message
        self.line = line

    @property
    def key(self):
        return f"{self.rule}|{self.where}|{self.construct}"

    def as_dict(self):
        return {"rule": self.rule, "where": self.where, "construct": self.construct,
                "message": self.message, "line": self.line, "key": self.key}


def where(fi_or_cls, name=None):
    """file:qualname of a FuncInfo / ClassInfo / ModuleInfo"""
    q = getattr(fi_or_cls, "qualname", None) or getattr(fi_or_cls, "name", "")
    if fi_or_cls.__class__.__name__ == "ModuleInfo":
        q = "<module>"
    return f"{fi_or_cls.relpath}:{q}" + (f".{name}" if name else "")


class Result:
    def __init__(self):
        self.findings = {}
        self.counts = {}
        self.samples = {}
        self.notes = []
        self.guards = []

    def add(self, rule, where_, construct, message, line=None):
        f = Finding(rule, where_, construct, message, line)
        self.findings.setdefault(f.key, f)

    def count(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + k

    def sample(self, name, item, limit=12):
        l = self.samples.setdefault(name, [])
        if len(l) < limit and item not in l:
            l.append(item)

    def guard(self, name, minimum):
        """Vacuity guard: fewer analysed instances than this means the anchors are gone."""
        self.guards.append((name, minimum))

    def merge(self, other):
        self.findings.update(other.findings)
        for k, v in other.counts.items():
            self.count(k, v)
        for k, v in other.samples.items():
            for x in v:
                self.sample(k, x)
        self.notes.extend(other.notes)
        self.guards.extend(other.guards)


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return {"known": [], "fixed": []}
    return json.load(open(p))


def run_property(pid, spec, tier, seed=1):
    """spec: dict(checks=[callables(project, tier)->Result], rule=str, assumptions=[...])"""
    from .project import Project

    t0 = time.time()
    project = Project()
    res = Result()
    crashed = []
    for rel, err in project.parse_errors:
        res.add("unparsable-source", f"{rel}:<module>", "syntax", f"source does not parse: {err}")
    res.count("modules_indexed", len(project.modules))
    for fn in spec["checks"]:
        try:
            res.merge(fn(project, tier))
        except Exception:
            crashed.append((fn.__name__, traceback.format_exc()))
    lost = [(n, m) for n, m in res.guards if res.counts.get(n, 0) < m]
    known = {k["key"]: k for k in load_known().get("known", []) if k.get("property") == pid}
    new, old = [], []
    # a listed finding whose code moved to another function of the same file is still that finding (one each)
    moved = {}
    for k in known:
        if k not in res.findings:
            rule, where_, construct = k.split("|", 2)
            moved.setdefault((rule, where_.split(":")[0], construct), []).append(k)
    for k, f in sorted(res.findings.items()):
        alt = moved.get((f.rule, f.where.split(":")[0], f.construct))
        if k in known or alt:
            old.append(f)
            if k not in known:
                alt.pop()
        else:
            new.append(f)
    evdir = os.environ.get("RSA_EVIDENCE") or os.path.join(ROOT, "evidence")
    os.makedirs(evdir, exist_ok=True)
    replay = os.path.join(evdir, f"{pid}.violations.json")
    cov = {
        "explanation": spec["rule"],
        "counts": dict(sorted(res.counts.items())),
        "samples": res.samples,
        "known_findings_seen": [f.as_dict() for f in old],
        "guards": [{"name": n, "minimum": m, "measured": res.counts.get(n, 0)} for n, m in res.guards],
        "internal_errors": [c[0] for c in crashed],
        "notes": res.notes[:50],
    }
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "other"),
        "coverage": cov, "wall_s": round(time.time() - t0, 3), "violations": len(new),
        "assumptions": spec.get("assumptions", []),
    }
    with open(os.path.join(evdir, f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    for f in old:
        print(f"KNOWN-FINDING: property={pid} {f.where} {f.rule}: {f.message}")
    for name, minimum in lost:
        print(f"ANALYSIS-BROKEN property={pid}: only {res.counts.get(name, 0)} instances of '{name}' found "
              f"(expected >= {minimum}): the construct this property is anchored on is gone", file=sys.stderr)
    for name, tb in crashed:
        print(f"internal error in {name}:\n{tb}", file=sys.stderr)
    print(f"{pid} [{tier}] " + ", ".join(f"{k}={v}" for k, v in sorted(res.counts.items()))
          + f"; findings: {len(new)} new, {len(old)} known; {time.time()-t0:.1f}s")
    if new:
        with open(replay, "w") as fh:
            json.dump([f.as_dict() for f in new], fh, indent=1)
        for f in new:
            print(f"  {f.where}:{f.line or '?'} [{f.rule}] {f.construct}: {f.message}")
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    if os.path.exists(replay):
        os.unlink(replay)
    if crashed or lost:
        return 2
    return 0
