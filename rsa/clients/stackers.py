"""Stacker column contract."""
import ast

from ..core import Result, where
from ..interp import (Addr, Budget, Client, Const, DictO, FuncV, Interp, MethV, NONE, ObjO, Pred, Raise, Ref, SeqO,
                      TupV, Union, Unk, keystr, taint_of)
from ..util import fresh_state, init_params, is_store_base, opaque, short, strkeys, symbolic_kwargs

DATA = Ref("data")
LEN = Ref("datalen")


class StackerClient(Client):
    def __init__(self, project, base, cls, res, present):
        self.p, self.base, self.cls, self.res, self.present = project, base, cls, res, present
        self.top = None
        self.allowed = None   # set of keystr or None (open)
        self.added = set()
        self.open = False
        self.mode = ""
        self.problems = []

    def data_root(self, root):
        return root == "data"

    # -- helpers
    def loc(self, st):
        return where(st.fi) if hasattr(st.fi, "relpath") else where(self.cls)

    def nested_added(self, st):
        return {f[1] for f in st.may if f[0] == "nested"}

    def written(self, st):
        return {f[1] for f in st.must if f[0] == "w"}

    def report(self, rule, st, construct, msg, node):
        self.problems.append((rule, where(self.cls), construct, msg + f" (in {self.loc(st)}, {self.mode})",
                              getattr(node, "lineno", None)))

    def read(self, it, st, key, node):
        self.res.count("column_reads")
        if opaque(key) or self.allowed is None or ("open",) in st.may:
            return
        k = keystr(key)
        if "?" in k:
            return
        if isinstance(key, Ref) and key.root != "param":
            return
        if k in self.added and k not in self.allowed:
            if k in self.written(st) or k in self.nested_added(st) or self.present:
                return
            if is_store_base(st.fi.module, node):
                return
            if ("w", k) in st.may:
                return
            self.report("column-read-before-filled", st, k,
                        f"column {k!r} is read before this stacker has put any value in it", node)
            return
        if k in self.allowed or k in self.nested_added(st) or ("w", k) in st.may:
            return
        self.report("undeclared-column-read", st, k,
                    f"reads column {k!r}, which is neither in cols_req nor added by it", node)

    def write(self, it, st, key, node):
        self.res.count("column_writes")
        if opaque(key):
            st.fact(("open-write",))
            return
        k = keystr(key)
        st.fact(("w", k))
        if self.addedopen or "?" in k or (isinstance(key, Ref) and key.root != "param"):
            return
        if k not in self.added and k not in self.nested_added(st):
            self.report("foreign-column-write", st, k,
                        f"writes column {k!r}, which it does not declare in cols_added", node)

    # -- hooks
    def inlined(self, it, st, fi):
        return not fi.module.name.startswith("rubin_sim.phot_utils")

    def load_sub(self, it, st, base, key, node):
        if isinstance(base, Ref) and base.root == "data" and not base.path:
            keys = strkeys(it, st, key)
            if keys is not None and not (len(keys) == 1 and isinstance(keys[0], Ref) and keys[0].root in ("data", "datalen")):
                for k in keys:
                    self.read(it, st, k, node)
                if len(keys) > 1 or not isinstance(key, (Const, Ref)) and isinstance(key, Addr):
                    return [(st, Ref("data", (), True))]
        return None

    def store_sub(self, it, st, base, key, value, node):
        if isinstance(base, Ref) and base.root == "data" and not base.owned:
            if not base.path:
                keys = strkeys(it, st, key)
                if keys is not None:
                    for k in keys:
                        self.write(it, st, k, node)
                elif isinstance(key, (Unk,)) and not isinstance(key, Const):
                    st.fact(("open-write",))
            elif base.path[0].startswith("["):
                self.write_path(it, st, base, node)

    def write_path(self, it, st, ref, node):
        k = ref.path[0][1:-1]
        key = Const(k)
        if k.startswith("$param."):
            key = Ref("param", ("." + k[7:],))
        elif k.startswith("$") or "{" in k or "?" in k or k == "*":
            st.fact(("open-write",))
            return
        self.write(it, st, key, node)

    def mutate(self, it, st, ref, how, node):
        if isinstance(ref, Ref) and ref.root == "data" and ref.path and ref.path[0].startswith("[") and how != "item assignment":
            self.write_path(it, st, ref, node)

    def load_attr(self, it, st, base, attr, node):
        if isinstance(base, Ref) and base.root == "data" and not base.path and attr in ("size",):
            return [(st, LEN)]
        return None

    def cmp(self, it, st, op, l, r):
        if r == LEN and isinstance(l, Const):
            op = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(type(op), type(op))()
            l, r = r, l
        if l == LEN and isinstance(r, Const) and isinstance(r.v, (int, float)):
            v = r.v
            if isinstance(op, ast.Eq) and v < 1:
                return False
            if isinstance(op, ast.NotEq) and v < 1:
                return True
            if isinstance(op, ast.Gt) and v < 1:
                return True
            if isinstance(op, ast.GtE) and v <= 1:
                return True
            if isinstance(op, ast.Lt) and v <= 1:
                return False
            if isinstance(op, ast.LtE) and v < 1:
                return False
        # a caller does not name an input column after a column this stacker adds
        if isinstance(op, (ast.Eq, ast.NotEq)):
            for a, b in ((l, r), (r, l)):
                if isinstance(a, Const) and a.v in self.added and isinstance(b, Ref) and b.root == "param":
                    return isinstance(op, ast.NotEq)
        if isinstance(op, (ast.In, ast.NotIn)) and isinstance(l, Const) and l.v in self.added:
            items, exact = it.iter_items(st, r)
            if items and exact and all(isinstance(x, Ref) and x.root == "param" for x in items):
                return isinstance(op, ast.NotIn)
        if isinstance(op, (ast.In, ast.NotIn)) and isinstance(r, Ref) and r.root == "data" and isinstance(l, (Const, Ref)):
            if r.path in ((".columns",), (".dtype", ".names"), ()) and self.allowed is not None:
                k = keystr(l)
                neg = isinstance(op, ast.NotIn)
                if k in self.allowed:
                    return not neg
                if k in self.added:
                    return bool(self.present) != neg
        return None

    def nonempty(self, it, st, v):
        return any(t in ("data", "datalen") or t.startswith("data[") for t in taint_of(v, st.heap))

    def call(self, it, st, fn, args, kw, node):
        if isinstance(fn, FuncV) and fn.selfv is not None and fn.selfv != self.top:
            o = it.ho(st, fn.selfv)
            if isinstance(o, ObjO) and o.cls is not None and self.p.is_subclass(o.cls, self.base) and fn.fi.name in ("run", "_run"):
                self.res.count("nested_stacker_calls")
                d = o.d()
                cn = d.get("cols_added")
                if cn is None:
                    cn = it.get_attr(st, fn.selfv, "cols_added", node)[0][1]
                items, exact = it.iter_items(st, cn)
                if items is None or not exact:
                    st.fact(("open",))
                for k in items or []:
                    st.fact(("nested", keystr(k)))
                if fn.fi.name == "run" and fn.fi.cls is self.base:
                    sub = self.p.find_method(o.cls, "_run")
                    if sub is not None and sub.cls is not self.base:
                        return it.call_function(st, sub, [args[0] if args else DATA, Const(False)], {}, node, selfv=fn.selfv)
                return None
        if isinstance(fn, Ref) and fn.path and fn.path[-1] in (".run", "._run") and any(a == DATA for a in args):
            st.fact(("open",))
            return [(st, DATA)]
        nm = getattr(fn, "name", "")
        if nm in ("builtins.len", "numpy.size") and len(args) == 1 and isinstance(args[0], Ref) and args[0].root == "data" and not args[0].owned:
            return [(st, LEN)]
        if nm in ("pandas.DataFrame",) and args and isinstance(args[0], Ref) and args[0].root == "data":
            return [(st, DATA)]
        return None


def anchors(project):
    return project.get_class("rubin_sim.maf.stackers.base_stacker", "BaseStacker")


def configs(project, cls):
    init, params, defaults = init_params(project, cls)
    yield "default configuration", {p: Ref("param", ("." + p,)) for p in params if p not in defaults}
    if params:
        yield "any constructor arguments", symbolic_kwargs(project, cls)


def check_stackers(project, tier):
    res = Result()
    base = anchors(project)
    if base is None:
        res.guard("stacker_classes", 1)
        return res
    for cls in project.subclasses(base):
        run = project.find_method(cls, "_run")
        entry = run
        crun = project.find_method(cls, "run")
        if run is None or run.cls is base:
            entry = crun if crun is not None and crun.cls is not base else None
        if entry is None or entry.cls is base:
            continue
        ca = project.find_class_attr(cls, "cols_added")
        if (run is None or run.cls is base) and (ca is None or ca[0] is base):
            continue  # abstract intermediate class
        res.count("stacker_classes")
        for mode, kw in configs(project, cls):
            for present in (False, True):
                try:
                    analyse(project, base, cls, entry, mode, kw, present, res, tier)
                except Budget:
                    res.count("budget_exceeded")
                    res.notes.append(f"budget: {cls.name} {mode}")
    res.guard("stacker_classes", 20)
    res.guard("column_reads", 150)
    res.guard("run_paths", 60)
    return res


def analyse(project, base, cls, entry, mode, kw, present, res, tier):
    client = StackerClient(project, base, cls, res, present)
    client.mode = mode
    it = Interp(project, client, budget=120000 if tier == "quick" else 600000)
    st = fresh_state(project, cls.module)
    outs = it.instantiate(st, cls, [], dict(kw), None)
    for s, obj in outs:
        if isinstance(obj, Raise):
            continue
        res.count("constructor_paths")
        client.top = obj
        o = s.heap[obj.n]
        d = o.d()
        req = d.get("cols_req")
        added_v = d.get("cols_added")
        if added_v is None:
            ca = project.find_class_attr(cls, "cols_added")
            added_v = it.class_attr(s, ca[0], "cols_added", ca[1]) if ca and ca[1] is not None else None
        items, aexact = it.iter_items(s, added_v) if added_v is not None else (None, False)
        client.addedopen = items is None or not aexact or any(opaque(i) for i in items)
        client.added = {keystr(i) for i in items or []}
        res.sample("stackers", f"{cls.name}: adds {sorted(client.added)}")
        if not present:
            if req is None:
                res.add("no-required-columns-declared", where(cls), "cols_req",
                        f"constructor path leaves cols_req unset ({mode})")
            un = d.get("units")
            uo = it.ho(s, un) if un is not None else None
            if un is None and project.find_class_attr(cls, "units") is None:
                res.add("no-units-declared", where(cls), "units", f"constructor path leaves units unset ({mode})")
            elif un is not None and not client.addedopen:
                n = None
                if isinstance(uo, SeqO) and uo.exact:
                    n = len(uo.items)
                elif isinstance(un, TupV):
                    n = len(un.items)
                elif isinstance(un, Const) and isinstance(un.v, str):
                    n = -1
                if n is not None and n != len(items):
                    res.add("units-do-not-match-columns", where(cls), "units",
                            f"declares {'a bare string' if n < 0 else n} as units for {len(items)} added columns ({mode})")
                res.count("unit_lists_checked")
            dt = d.get("cols_added_dtypes")
            do = it.ho(s, dt) if dt is not None else None
            if isinstance(do, SeqO) and do.exact and not client.addedopen and len(do.items) != len(items):
                res.add("dtypes-do-not-match-columns", where(cls), "cols_added_dtypes",
                        f"declares {len(do.items)} dtypes for {len(items)} added columns ({mode})")
        ritems, rexact = it.iter_items(s, req) if req is not None else (None, False)
        if ritems is None or any(opaque(i) for i in ritems) or not rexact:
            if isinstance(req, Ref):
                client.allowed = None
            else:
                client.allowed = None if ritems is None or any(opaque(i) for i in ritems) else {keystr(i) for i in ritems}
        else:
            client.allowed = {keystr(i) for i in ritems}
        if isinstance(req, Ref):
            client.allowed = None
        ps = entry.params()[1:]
        args = {}
        for i, pn in enumerate(ps):
            if i == 0:
                args[pn] = DATA
            elif pn == "cols_present":
                args[pn] = Const(present)
            elif pn == "override":
                args[pn] = Const(False)
            else:
                args[pn] = Ref("arg", ("." + pn,))
        s.dec[("T", LEN)] = True
        s.must = frozenset()
        s.may = frozenset()
        client.problems = []
        rets = it.call_function(s, entry, [], args, None, selfv=obj)
        for t, v in rets:
            if isinstance(v, Raise):
                continue
            res.count("run_paths")
            vs = v.vals if isinstance(v, Union) else (v,)
            inplace = all(isinstance(x, Ref) and x.root == "data" and not x.path for x in vs)
            if not inplace:
                if any(x == NONE or (isinstance(x, Const)) or (isinstance(x, Ref) and x.root == "data" and x.path) for x in vs):
                    client.problems.append(("data-not-returned", where(cls), "return",
                                            f"a path of {entry.name} does not return the visit data ({mode})", None))
                continue
            if present or client.addedopen or ("open-write",) in t.may or ("open",) in t.may:
                continue
            for k in sorted(client.added):
                res.count("fill_obligations")
                if ("w", k) not in t.must:
                    client.problems.append((
                        "added-column-not-filled", where(cls), k,
                        f"a path through {entry.name} returns without assigning declared column {k!r} ({mode})", None))
        for pr in client.problems:
            res.add(*pr)
