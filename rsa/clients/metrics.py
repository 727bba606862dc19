"""Metric contracts: declared columns, isolation between metrics and slices, slice-point keys."""
import ast

from ..core import Result, where
from ..interp import (Addr, Budget, ClassV, Client, Const, DictO, FuncV, Interp, MethV, NONE, ObjO, Pred, Raise, Ref,
                      SeqO, Str, TupV, Union, Unk, keystr, taint_of)
from ..project import walk_own
from ..util import fresh_state, init_params, is_store_base, opaque, short, strkeys, symbolic_kwargs

DATA = Ref("data")
SP = Ref("sp")
LEN = Ref("datalen")
HEAVY = ("rubin_sim.phot_utils", "rubin_sim.skybrightness", "rubin_sim.maf.stackers", "rubin_sim.maf.plots",
         "rubin_sim.maf.slicers", "rubin_sim.maf.db")


def base_metric(project):
    return project.get_class("rubin_sim.maf.metrics.base_metric", "BaseMetric")


class MetricClient(Client):
    def __init__(self, project, base, cls, res):
        self.p, self.base, self.cls, self.res = project, base, cls, res
        self.init = base.methods.get("__init__")
        self.top = None
        self.phase = "ctor"
        self.allowed = None
        self.problems = []
        self.mode = ""
        self.sp_reads = []
        self.exposed = {}
        self.datastores = {}
        self.ctor_limit = 0
        self.ctor_addrs = {}

    def data_root(self, root):
        return root == "data"

    def inlined(self, it, st, fi):
        n = fi.module.name
        if any(n.startswith(h) for h in HEAVY):
            return False
        return True

    # ---------------------------------------------------------------- ctor model
    def call(self, it, st, fn, args, kw, node):
        if isinstance(fn, FuncV) and fn.fi is self.init and fn.selfv is not None:
            return self.model_init(it, st, fn, args, kw)
        if isinstance(fn, ClassV):
            n = fn.ci.module.name
            if any(n.startswith(h) for h in HEAVY):
                return [(st, Unk(frozenset().union(*[taint_of(a, st.heap) for a in list(args) + list(kw.values())])
                                 if args or kw else frozenset()))]
        nm = getattr(fn, "name", "")
        if nm in ("builtins.len", "numpy.size") and len(args) == 1 and isinstance(args[0], Ref) and args[0].root == "data" and not args[0].owned and not args[0].path:
            return [(st, LEN)]
        if self.phase == "run":
            if nm in ("numpy.sort", "numpy.argsort", "numpy.unique"):
                o = kw.get("order")
                if args and isinstance(args[0], Ref) and args[0].root == "data" and not args[0].path and o is not None:
                    for k in strkeys(it, st, o) or []:
                        self.read(it, st, k, node)
            if isinstance(fn, (MethV, Ref)):
                b = fn.base if isinstance(fn, MethV) else (Ref(fn.root, fn.path[:-1], fn.owned) if fn.path else None)
                m = fn.name if isinstance(fn, MethV) else (fn.path[-1][1:] if fn.path else "")
                if isinstance(b, Ref) and b.root == "data" and not b.path and m in ("sort", "argsort"):
                    o = kw.get("order")
                    if o is not None:
                        for k in strkeys(it, st, o) or []:
                            self.read(it, st, k, node)
                if isinstance(b, Ref) and b.root == "sp" and not b.path and m == "get" and args and isinstance(args[0], Const):
                    return None
            if nm in ("pandas.DataFrame", "astropy.table.Table", "numpy.rec.array", "pandas.DataFrame.from_records",
                      "numpy.lib.recfunctions.structured_to_unstructured") and args and isinstance(args[0], Ref) and args[0].root == "data":
                return [(st, Ref("data", args[0].path, True))]
        return None

    def model_init(self, it, st, fn, args, kw):
        env, _ = it.bind(st, fn.fi, args, kw, fn.selfv)
        obj = fn.selfv
        if not isinstance(obj, Addr):
            return [(st, NONE)]
        g = env.get
        it.setattr_(st, obj, "@cols", g("col", NONE))
        it.setattr_(st, obj, "@dstar", g("@dstar", NONE))
        col = g("col", NONE)
        o = it.ho(st, col)
        if isinstance(o, SeqO):
            arr = it.alloc(st, SeqO("list", o.items, o.exact, o.must))
        elif isinstance(col, TupV):
            arr = it.newlist(st, list(col.items))
        elif isinstance(col, (Const, Str)):
            arr = it.newlist(st, [col])
        elif isinstance(col, Ref):
            arr = Ref(col.root, col.path, True)
        else:
            arr = Unk(taint_of(col, st.heap))
        it.setattr_(st, obj, "col_name_arr", arr)
        ao = it.ho(st, arr)
        if isinstance(ao, SeqO) and ao.exact and len(ao.items) == 1:
            it.setattr_(st, obj, "colname", ao.items[0])
        elif not isinstance(ao, SeqO):
            it.setattr_(st, obj, "colname", col)
        m = g("maps", NONE)
        it.setattr_(st, obj, "maps", it.newlist(st, []) if m == NONE else m)
        for a in ("badval", "mask_val", "units"):
            if g(a) is not None and not (a == "mask_val" and g(a) == NONE):
                it.setattr_(st, obj, a, g(a))
        nm = g("metric_name", NONE)
        it.setattr_(st, obj, "name", nm if nm != NONE else Const("Name"))
        it.setattr_(st, obj, "metric_dtype", g("metric_dtype", NONE) if g("metric_dtype", NONE) != NONE else Const("float"))
        it.setattr_(st, obj, "reduce_funcs", Unk())
        it.setattr_(st, obj, "reduce_order", Unk())
        it.setattr_(st, obj, "comment", NONE)
        it.setattr_(st, obj, "shape", Const(1))
        return [(st, NONE)]

    # ---------------------------------------------------------------- columns
    def report(self, rule, st, construct, msg, node):
        loc = where(st.fi) if hasattr(st.fi, "relpath") else where(self.cls)
        self.problems.append((rule, where(self.cls), construct, msg + f" (in {loc}; {self.mode})",
                              getattr(node, "lineno", None)))

    def read(self, it, st, key, node):
        if self.phase != "run":
            return
        self.res.count("column_reads")
        if self.allowed is None or opaque(key):
            return
        if isinstance(key, Ref) and key.root != "param":
            return
        k = keystr(key)
        if "?" in k or k in ("None", "metricdata"):
            # "metricdata" is the one column of the array a summary metric receives (metric values, not visits)
            return
        if k in self.allowed or ("w", k) in st.may:
            return
        if isinstance(key, Ref) and key.root == "param" and any(
            a.startswith("$param.") and k.startswith(a + "[") for a in self.allowed
        ):
            return
        if isinstance(key, Ref) and any(t.startswith(k + "[") for t in self.allowed):
            return
        self.report("undeclared-column-read", st, k,
                    f"reads visit column {k!r}, which the metric never declares as required", node)

    def load_sub(self, it, st, base, key, node):
        if isinstance(base, Ref) and base.root == "data" and not base.path:
            keys = strkeys(it, st, key)
            if keys is not None and not (len(keys) == 1 and isinstance(keys[0], Ref) and keys[0].root in ("data", "datalen", "sp")):
                for k in keys:
                    self.read(it, st, k, node)
                if isinstance(key, Addr):
                    return [(st, Ref("data", (), True))]
        if self.phase == "run" and isinstance(base, Ref) and base.root == "sp" and not base.path:
            self.sp_reads.append((st.copy() if False else None, key, node, st.fi, st.dec.get(("in", key, SP))))
        return None

    def store_sub(self, it, st, base, key, value, node):
        if isinstance(base, Ref) and base.root == "data" and not base.path and self.phase == "run":
            for k in strkeys(it, st, key) or []:
                st.fact(("w", keystr(k)))

    # ---------------------------------------------------------------- isolation
    def mutate(self, it, st, ref, how, node):
        if self.phase != "run":
            return
        if isinstance(ref, Ref) and ref.root in ("data", "sp"):
            if ref.root == "data" and not ref.path and how.startswith(".sort()"):
                # sorting whole visit records only reorders the rows every metric sees (see P03's statement)
                self.res.count("row_reorderings")
                return
            what = "visit data" if ref.root == "data" else "slice point"
            self.res.count("mutations_seen")
            self.report("shared-input-modified", st, f"{what}{''.join(ref.path)}",
                        f"modifies the {what} handed to it ({how}: {short(node)}), which every other metric on this "
                        "slice shares", node)
        elif isinstance(ref, Ref) and ref.root == "kept":
            self.datastores.setdefault(ref.path[0][1:], (how, node, st.fi))
        elif isinstance(ref, Addr) and ref.n in self.ctor_addrs:
            self.datastores.setdefault(self.ctor_addrs[ref.n], (how, node, st.fi))

    def store_attr(self, it, st, base, attr, value, node):
        if self.phase != "run" or base != self.top:
            return
        self.res.count("self_stores")
        if isinstance(node, ast.AugAssign) or any(
            t == "data" or t.startswith(("data[", "sp", "datalen")) for t in taint_of(value, st.heap)
        ) or (isinstance(value, (Ref,)) and value.root in ("data", "sp")) or moves_on(node) \
                or isinstance(value, Const) and self.initial.get(attr, value) != value:     # a setting the constructor made is replaced
            self.datastores.setdefault(attr, ("assignment", node, st.fi))
        st.fact(("s", attr))

    def load_attr(self, it, st, base, attr, node):
        if isinstance(base, Ref) and base.root == "data" and not base.path and attr in ("size",):
            return [(st, LEN)]
        if self.phase == "run" and base == self.top and ("s", attr) not in st.must:
            self.exposed.setdefault(attr, (node, st.fi))
        return None

    def nonempty(self, it, st, v):
        # a slice is never empty when a metric runs on it; loops over things derived from it run at least once
        return self.phase == "run"

    def cmp(self, it, st, op, l, r):
        if isinstance(op, (ast.In, ast.NotIn)) and isinstance(r, Ref) and r.root == "data" and isinstance(l, (Const, Ref)):
            if r.path in ((".columns",), (".dtype", ".names"), ()) and self.allowed is not None:
                if keystr(l) in self.allowed:
                    return not isinstance(op, ast.NotIn)
                if isinstance(l, Const):
                    # optional column: explicitly probed for, so reading it afterwards is declared behaviour
                    return Pred(("in", l, r), isinstance(op, ast.NotIn))
        if r == LEN and isinstance(l, Const):
            op = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(type(op), type(op))()
            l, r = r, l
        if l == LEN and isinstance(r, Const) and r.v == 0:
            if isinstance(op, ast.Eq):
                return False
            if isinstance(op, (ast.NotEq, ast.Gt)):
                return True
        return None


SETTLES = {"array", "asarray", "atleast_1d", "asanyarray", "list", "tuple", "sorted", "sort", "unique", "set", "abs", "float", "int", "str", "lower", "upper", "strip"}


def moves_on(node):
    """self.x = f(self.x): the value after one run is where the next run starts"""
    if not isinstance(node, (ast.Assign, ast.AnnAssign)) or node.value is None:
        return False
    v = node.value
    while isinstance(v, ast.Call) and (ast.unparse(v.func).split(".")[-1] in SETTLES):
        v = v.args[0] if v.args else v.func.value if isinstance(v.func, ast.Attribute) else ast.Constant(0)
    if isinstance(v, ast.Subscript) and not isinstance(v.slice, ast.Slice):
        return False    # selecting once more by the same condition changes nothing
    if isinstance(v, (ast.Attribute, ast.Constant)) or isinstance(v, ast.IfExp) and isinstance(v.test, ast.Compare) and isinstance(v.test.ops[0], (ast.Is, ast.IsNot)):
        return False
    ts = node.targets if isinstance(node, ast.Assign) else [node.target]
    return any(isinstance(t, ast.Attribute) and any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and ast.dump(x.value) == ast.dump(t.value) and x.attr == t.attr for x in ast.walk(v)) for t in ts)


def colset(it, st, v, client):
    """declared columns -> set of keystr, or None when open"""
    if v is None or v == NONE:
        return set()
    if isinstance(v, Union):
        return None
    if isinstance(v, (Const, Str)):
        return None if opaque(v) else {keystr(v)}
    if isinstance(v, Ref):
        return {keystr(v)} if v.root == "param" else None
    items, exact = it.iter_items(st, v)
    if items is None or not exact:
        return None
    out = set()
    for i in items:
        if opaque(i):
            return None
        # nested list / tuple
        if isinstance(i, (TupV, Addr)):
            sub = colset(it, st, i, client)
            if sub is None:
                return None
            out |= sub
        else:
            out.add(keystr(i))
    return out


def configs(project, cls):
    init, params, defaults = init_params(project, cls)
    yield "default configuration", {p: Ref("param", ("." + p,)) for p in params if p not in defaults}
    if params:
        yield "any constructor arguments", symbolic_kwargs(project, cls)


def analyse_all(project, tier):
    cache = getattr(project, "_metric_runs", None)
    if cache is not None and cache[0] == tier:
        return cache[1]
    base = base_metric(project)
    out = []
    if base is not None:
        for cls in project.subclasses(base):
            run = project.find_method(cls, "run")
            if run is None or run.cls is base:
                continue
            for mode, kw in configs(project, cls):
                out.append(analyse(project, base, cls, run, mode, kw, tier))
    project._metric_runs = (tier, out)
    return out


class Run:
    pass


def analyse(project, base, cls, run, mode, kw, tier):
    res = Result()
    client = MetricClient(project, base, cls, res)
    client.mode = mode
    it = Interp(project, client, budget=120000 if tier == "quick" else 500000, maxp=24)
    r = Run()
    r.cls, r.mode, r.res, r.client, r.run = cls, mode, res, client, run
    r.budget = False
    r.paths = 0
    r.sp = []
    r.problems = []
    r.state = []
    st = fresh_state(project, cls.module)
    try:
        outs = it.instantiate(st, cls, [], dict(kw), None)
    except Budget:
        r.budget = True
        return r
    outs = [(s, o) for s, o in outs if not isinstance(o, Raise)]
    r.ctor_paths = len(outs)
    for s, obj in outs[:12]:
        client.top = obj
        client.phase = "run"
        d = s.heap[obj.n].d()
        client.allowed = colset(it, s, d.get("@cols"), client)
        if "@cols" not in d:
            # moving-object metrics run on object observations, whose columns nothing selects by declaration
            client.allowed = None
        client.problems = []
        client.sp_reads = []
        client.exposed, client.datastores = {}, {}
        client.ctor_addrs = {}
        client.initial = dict(d)
        for k, v in d.items():
            if isinstance(v, Addr) and k[0] != "@":
                client.ctor_addrs[v.n] = k
            elif isinstance(v, Unk) and k[0] != "@" and k not in ("reduce_funcs", "reduce_order"):
                # (the reduce tables name the summaries a metric offers, they are no part of its value)
                # an array or other object built by the constructor: give it an identity, to see it changed in place
                it.setattr_(s, obj, k, Ref("kept", ("." + k,)))
        maps, mexact = it.iter_items(s, d.get("maps")) if d.get("maps") is not None else (None, False)
        ps = run.params()[1:]
        args = {}
        for i, pn in enumerate(ps):
            if i == 0:
                args[pn] = DATA
            elif i == 1 or "slice_point" in pn:
                args[pn] = SP
        s.dec[("T", LEN)] = True
        s.dec[("none", SP)] = False
        s.dec[("T", SP)] = True
        s.must = s.may = frozenset()
        it.steps = 0
        try:
            rets = it.call_function(s, run, [], args, None, selfv=obj)
            r.paths += len(rets)
        except Budget:
            r.budget = True
        client.phase = "ctor"
        r.problems.extend(client.problems)
        r.sp.append((list(client.sp_reads), maps if mexact else None, s))
        for a in set(client.exposed) & set(client.datastores):
            r.state.append((a, client.datastores[a], client.exposed[a]))
    return r


def check_columns(project, tier):
    res = Result()
    seen = set()
    for r in analyse_all(project, tier):
        seen.add(r.cls.name)
        res.count("analyses")
        res.count("run_paths", r.paths)
        if r.budget:
            res.count("budget_exceeded")
            res.notes.append(f"budget: {r.cls.name} ({r.mode})")
        res.count("column_reads", r.res.counts.get("column_reads", 0))
        if r.client.allowed is None:
            res.count("open_column_sets")
        for p in r.problems:
            if p[0] == "undeclared-column-read":
                res.add(*p)
    res.count("metric_classes", len(seen))
    res.guard("metric_classes", 120)
    res.guard("column_reads", 1000)
    return res


def check_isolation(project, tier):
    res = Result()
    seen = set()
    for r in analyse_all(project, tier):
        seen.add(r.cls.name)
        res.count("analyses")
        res.count("run_paths", r.paths)
        res.count("self_attribute_stores_in_run", r.res.counts.get("self_stores", 0))
        for p in r.problems:
            if p[0] == "shared-input-modified":
                res.add(*p)
        for a, (how, node, fi), (n2, fi2) in r.state:
            res.add("state-carried-between-slices", where(r.cls), a,
                    f"attribute {a!r} receives a value computed from one slice ({short(node)}) and is read before being "
                    f"reset when the next slice is evaluated ({r.mode})", getattr(node, "lineno", None))
    res.count("metric_classes", len(seen))
    res.guard("metric_classes", 120)
    return res
