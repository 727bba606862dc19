"""Slice-point keys: what a metric reads must be supplied by a slicer, a population generator or a map it declares;
what a map promises it must write, on every path."""
import ast
import re

from ..core import Result, where
from ..interp import (Addr, Budget, Client, Const, DictO, Interp, NONE, ObjO, Raise, Ref, SeqO, Str, TupV, Union, Unk,
                      keystr)
from ..project import walk_own
from ..util import fresh_state, init_params, opaque, short, strkeys, symbolic_kwargs
from . import metrics

SP = Ref("sp")

# keys that by design come from the caller's own points (documented inputs of the metrics named), not from this package
CALLER_SUPPLIED = {"distMod": "periodic-star metrics", "chipNames": "ChipVendorMetric",
                   "apparent_m_*": "MicrolensingMetric"}


def pattern(v):
    """regex source for a key value, unknown parts as wildcards; None when nothing is known"""
    if isinstance(v, Const):
        return re.escape(v.v) if isinstance(v.v, str) else None
    if isinstance(v, Str):
        out = ""
        for p in v.parts:
            out += re.escape(p) if isinstance(p, str) else "\x00"
        return out if out.replace("\x00", "") else None
    return None


def unify(a, b):
    """may the two patterns denote the same string?"""
    if "\x00" not in a and "\x00" not in b:
        return a == b
    ra = re.compile(a.replace("\x00", ".*") + r"\Z", re.S)
    rb = re.compile(b.replace("\x00", ".*") + r"\Z", re.S)
    un = lambda s: re.sub(r"\\(.)", r"\1", s.replace("\x00", "@"))
    return bool(ra.match(un(b)) or rb.match(un(a)))


def show(p):
    return re.sub(r"\\(.)", r"\1", p.replace("\x00", "*"))


# ---------------------------------------------------------------- maps
class MapClient(Client):
    def __init__(self):
        self.reads = []

    def store_sub(self, it, st, base, key, value, node):
        if isinstance(base, Ref) and base.root == "sp" and not base.path:
            p = pattern(key)
            if p is None:
                st.fact(("open",))
            else:
                st.fact(("w", p))

    def load_sub(self, it, st, base, key, node):
        if isinstance(base, Ref) and base.root == "sp" and not base.path and isinstance(key, (Const, Str)):
            self.reads.append((key, node, st.fi, st.dec.get(("in", key, SP)), ("w", pattern(key)) in st.may))
        return None

    def inlined(self, it, st, fi):
        return not fi.module.name.startswith("rubin_sim.phot_utils")


def base_map(project):
    return project.get_class("rubin_sim.maf.maps.base_map", "BaseMap")


def map_classes(project):
    b = base_map(project)
    return [c for c in project.subclasses(b)] if b is not None else []


def map_keys(project, tier):
    """map class name -> (class, list of (mode, key patterns or None))"""
    cache = getattr(project, "_map_keys", None)
    if cache is not None:
        return cache
    out = {}
    for cls in map_classes(project):
        rows = []
        init, params, defaults = init_params(project, cls)
        cfgs = [("default configuration", {p: Ref("param", ("." + p,)) for p in params if p not in defaults})]
        if params:
            cfgs.append(("any constructor arguments", symbolic_kwargs(project, cls)))
        for mode, kw in cfgs:
            it = Interp(project, MapClient(), budget=60000)
            st = fresh_state(project, cls.module)
            try:
                outs = it.instantiate(st, cls, [], dict(kw), None)
            except Budget:
                rows.append((mode, None, None, None, None))
                continue
            for s, obj in outs:
                if isinstance(obj, Raise):
                    continue
                kn = s.heap[obj.n].d().get("keynames")
                keys = None
                if kn is not None:
                    items, exact = it.iter_items(s, kn)
                    if items is not None and exact:
                        keys = [pattern(i) for i in items]
                rows.append((mode, keys, it, s, obj))
        if all(r[1] is None for r in rows):
            # keys are computed: take the key formats built in the map's module
            pats = [static_pattern(n) for n in ast.walk(cls.module.tree) if isinstance(n, ast.JoinedStr)]
            pats = [p for p in pats if p and "\x00" in p and " " not in p]
            rows = [(m, None, i, s, o) for m, _, i, s, o in rows] + [("computed", pats, None, None, None)]
        out[cls.name] = (cls, rows)
    project._map_keys = out
    return out


def slicer_keys(project):
    """keys put in slice points: {None: by slicers and batches, module: by code there that builds a population of points}"""
    allkeys = {None: set()}
    for m in project.modules.values():
        if not m.name.startswith("rubin_sim.maf") or m.name.startswith("rubin_sim.maf.maps"):
            continue
        keys = allkeys.setdefault(m.name if m.name.startswith("rubin_sim.maf.maf_contrib") else None, set())
        for n in ast.walk(m.tree):
            tgts = []
            if isinstance(n, ast.Assign):
                tgts = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tgts = [n.target]
            flat = []
            for t in tgts:
                flat.extend(t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t])
            for t in flat:
                if isinstance(t, ast.Subscript):
                    b = t.value
                    bn = b.attr if isinstance(b, ast.Attribute) else getattr(b, "id", "")
                    if bn in ("slice_points", "slice_point"):
                        k = static_pattern(t.slice)
                        if k:
                            keys.add(k)
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Dict):
                for t in n.targets:
                    nm = t.attr if isinstance(t, ast.Attribute) else getattr(t, "id", "")
                    if nm in ("slice_point", "slice_points"):
                        for k in n.value.keys:
                            p = static_pattern(k) if k is not None else None
                            if p:
                                keys.add(p)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "update":
                b = n.func.value
                bn = b.attr if isinstance(b, ast.Attribute) else getattr(b, "id", "")
                if bn in ("slice_point", "slice_points"):
                    for k in n.keywords:
                        if k.arg:
                            keys.add(re.escape(k.arg))
                    for a in n.args:
                        if isinstance(a, ast.Dict):
                            for k in a.keys:
                                p = static_pattern(k) if k is not None else None
                                if p:
                                    keys.add(p)
    return allkeys


def static_pattern(node):
    if isinstance(node, ast.Constant) and isinstance(node.value, str):
        return re.escape(node.value)
    if isinstance(node, ast.JoinedStr):
        return "".join(re.escape(v.value) if isinstance(v, ast.Constant) else "\x00" for v in node.values)
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
        return "\x00".join(re.escape(x) for x in re.split(r"%[-+0 #]*\d*(?:\.\d+)?[a-zA-Z]", node.left.value))
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
        l, r = static_pattern(node.left), static_pattern(node.right)
        if l or r:
            return (l or "\x00") + (r or "\x00")
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "format" and isinstance(node.func.value, ast.Constant):
        return "\x00".join(re.escape(x) for x in re.split(r"\{[^}]*\}", node.func.value.value))
    return None


def check_maps(project, tier):
    res = Result()
    for name, (cls, rows) in sorted(map_keys(project, tier).items()):
        run = project.find_method(cls, "run")
        if run is None or run.cls is base_map(project):
            continue
        res.count("map_classes")
        for mode, keys, it, s, obj in rows:
            if it is None:
                res.count("budget_exceeded" if mode != "computed" else "maps_with_computed_keys")
                continue
            if keys is None:
                kn = s.heap[obj.n].d().get("keynames")
                if kn is None:
                    res.add("map-declares-no-keys", where(cls), "keynames",
                            f"a constructor path leaves the keys the map adds undeclared ({mode})")
                continue
            it.steps = 0
            st = s.copy()
            st.must = st.may = frozenset()
            ps = run.params()[1:]
            try:
                rets = it.call_function(st, run, [], {ps[0]: SP} if ps else {}, None, selfv=obj)
            except Budget:
                res.count("budget_exceeded")
                continue
            for t, v in rets:
                if isinstance(v, Raise):
                    continue
                res.count("map_run_paths")
                vs = v.vals if isinstance(v, Union) else (v,)
                if not all(x == SP for x in vs):
                    res.add("slice-points-not-returned", where(cls, "run"), "return",
                            f"a path through run does not return the slice points it was given ({mode})")
                if ("open",) in t.may:
                    continue
                w = [f[1] for f in t.must if f[0] == "w"]
                for k in keys:
                    if k is None:
                        continue
                    res.count("key_obligations")
                    if not any(unify(k, x) for x in w):
                        res.add("declared-key-not-written", where(cls, "run"), show(k),
                                f"run can return without adding slice-point key {show(k)!r} that the map declares ({mode})")
                for x in {f[1] for f in t.may if f[0] == "w"}:
                    if not any(k and unify(k, x) for k in keys) and not any(k is None for k in keys):
                        res.add("undeclared-key-written", where(cls, "run"), show(x),
                                f"run adds slice-point key {show(x)!r} that the map does not declare, so map "
                                f"comparison cannot see it ({mode})")
    res.guard("map_classes", 5)
    res.guard("key_obligations", 8)
    return res


def check_metric_keys(project, tier):
    res = Result()
    by_module = slicer_keys(project)
    res.sample("slicer_keys", sorted(show(k) for k in by_module[None]), 3)
    maps = map_keys(project, tier)
    allmapkeys = {}
    for name, (cls, rows) in maps.items():
        allmapkeys[name] = {k for row in rows for k in (row[1] or []) if k}
    for r in metrics.analyse_all(project, tier):
        res.count("analyses")
        base_keys = set(by_module[None])
        for c in project.mro(r.cls):
            base_keys |= by_module.get(c.module.name, set())
        for reads, declared, s in r.sp:
            mk, openmaps = set(), declared is None
            for m in declared or []:
                if isinstance(m, Const) and isinstance(m.v, str):
                    if m.v not in maps:
                        res.add("unknown-map", where(r.cls), m.v,
                                f"asks for map {m.v!r}, which does not exist ({r.mode})")
                    mk |= allmapkeys.get(m.v, set())
                elif isinstance(m, Addr) and isinstance(s.heap.get(m.n), ObjO):
                    mk |= allmapkeys.get(getattr(s.heap[m.n].cls, "name", ""), set())
                else:
                    openmaps = True
            for _, key, node, fi, guard in reads:
                ks = key.vals if isinstance(key, Union) else (key,)
                for k in ks:
                    p = pattern(k)
                    if p is None:
                        continue
                    res.count("slice_point_key_reads")
                    if guard:
                        res.count("guarded_reads")
                        continue
                    if any(unify(p, b) for b in base_keys) or any(unify(p, b) for b in mk) or openmaps:
                        continue
                    prov = sorted(n for n, ks_ in allmapkeys.items() if any(unify(p, b) for b in ks_))
                    if prov:
                        res.add("map-not-declared", where(r.cls), show(p),
                                f"reads slice-point key {show(p)!r} (in {where(fi)}), supplied only by {', '.join(prov)}, "
                                f"which the metric does not ask for ({r.mode})", getattr(node, "lineno", None))
                    elif not any(unify(p, re.escape(c).replace(r"\*", "\x00")) for c in CALLER_SUPPLIED):
                        res.add("slice-point-key-never-supplied", where(r.cls), show(p),
                                f"reads slice-point key {show(p)!r} (in {where(fi)}), which no slicer or map supplies "
                                f"({r.mode})", getattr(node, "lineno", None))
    res.guard("slice_point_key_reads", 100)
    return res
