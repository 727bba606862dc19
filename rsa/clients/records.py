"""Named entries that are read have been put there: dictionaries, settings and record arrays built by the package."""
import ast
import fnmatch
import re

from ..core import Result, where
from ..project import walk_own
from ..flow import S, Flow
from .linking import call_target, shadowed

UNKNOWN = None


class V:
    """keys a mapping or record may have; open: other keys may be there as well; user: entries chosen by the caller are merged in"""
    __slots__ = ("keys", "open", "user", "kind")

    def __init__(self, keys=(), open=False, user=False, kind="dict"):
        self.keys, self.open, self.user, self.kind = frozenset(keys), open, user, kind

    def with_(self, keys=(), open=False, user=False):
        return V(self.keys | frozenset(keys), self.open or open, self.user or user, self.kind)

    def frozen(self):
        return (tuple(sorted(map(repr, self.keys))), self.open, self.user, self.kind)

    @staticmethod
    def thaw(t):
        return V([ast.literal_eval(k) for k in t[0]], *t[1:])

    def __repr__(self):
        return f"V({sorted(self.keys)}{', open' if self.open else ''}{', user' if self.user else ''} {self.kind})"


BOT = V(kind="bot")     # no entry can be read from it (None, or a value still being computed)


def join(vals):
    """may-join of alternatives; None (unknown) absorbs"""
    out = None
    for v in vals:
        if v is UNKNOWN:
            return UNKNOWN
        if v.kind == "bot":
            continue
        if out is None:
            out = v
        else:
            if out.kind != v.kind:
                return UNKNOWN
            out = V(out.keys | v.keys, out.open or v.open, out.user or v.user, out.kind)
    return out if out is not None else BOT


EXT_NP = {"np", "numpy"}
COPIES = {"copy", "deepcopy"}


def pattern(node):
    """a computed name with * for the parts that vary"""
    if isinstance(node, ast.Constant):
        return node.value.replace("*", "?") if isinstance(node.value, str) else "*"
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
        out = pattern(node.left) + pattern(node.right)
    elif isinstance(node, ast.BinOp) and isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
        out = re.sub(r"%[-+ #0-9.]*[a-zA-Z]", "*", node.left.value)
    elif isinstance(node, ast.JoinedStr):
        out = "".join(pattern(v) if isinstance(v, ast.Constant) else "*" for v in node.values)
    elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "format" and isinstance(node.func.value, ast.Constant) and isinstance(node.func.value.value, str):
        out = re.sub(r"\{[^{}]*\}", "*", node.func.value.value)
    else:
        return "*"
    return re.sub(r"\*+", "*", out)


def has(keys, name):
    return name in keys or isinstance(name, str) and any(isinstance(k, str) and "*" in k and fnmatch.fnmatchcase(name, k) for k in keys)


class PathKeys(Flow):
    """entries of the dictionaries a function builds, path by path, for one set of arguments (data: ((name, V), ...))"""

    def __init__(self, an, g, cls):
        super().__init__(g.node)
        self.an, self.g, self.cls = an, g, cls
        self.returned = []

    def join(self, a, b):
        return tuple(sorted(set(a) & set(b), key=repr))

    def bind(self, target, s, value=None):
        if isinstance(target, ast.Name):
            d = {k: v for k, v in s.data if k != target.id}
            if isinstance(value, ast.Dict) or isinstance(value, ast.Call) and isinstance(value.func, ast.Name) and value.func.id == "dict":
                v = self.an.ev(value, self.g, self.cls)
                if v is not UNKNOWN:
                    d[target.id] = v.frozen()
            elif isinstance(value, ast.Name) and value.id in d:
                d[target.id] = d[value.id]
            return [S(s.facts, tuple(sorted(d.items())))]
        if isinstance(target, ast.Subscript) and isinstance(target.value, ast.Name):
            d = dict(s.data)
            if target.value.id in d:
                d[target.value.id] = self.an.item_effect(V.thaw(d[target.value.id]), target, self.g, self.cls).frozen()
                return [S(s.facts, tuple(sorted(d.items())))]
        if isinstance(target, (ast.Tuple, ast.List)):
            for i, t in enumerate(target.elts):
                v = value.elts[i] if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(target.elts) else None
                s = self.bind(t.value if isinstance(t, ast.Starred) else t, s, v)[0]
        return [s]

    def expr(self, node, s):
        for n in ast.walk(node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                d = dict(s.data)
                if n.func.value.id in d:
                    d[n.func.value.id] = self.an.method_effect(V.thaw(d[n.func.value.id]), n, self.g, self.cls).frozen()
                    s = S(s.facts, tuple(sorted(d.items())))
        return [s]

    def learn_assign(self, s, target, value):
        if isinstance(target, ast.Name) and isinstance(value, ast.Call) and isinstance(value.func, ast.Attribute) and value.func.attr in ("lower", "upper", "strip") and not value.args:
            o = self.old.get(value.func.value.id) if isinstance(value.func.value, ast.Name) else None
            if o is not None and o[0] == "eq" and isinstance(o[1], str):
                return self._put(s, target.id, target, "eq", getattr(o[1], value.func.attr)())
        return super().learn_assign(s, target, value)

    def _assign(self, target, states, value, stmt):
        out = []
        for s in states:
            self.old = s.facts
            out += super()._assign(target, [s], value, stmt)
        return out

    def do_Return(self, st, states):
        for s in states:
            if isinstance(st.value, ast.Name) and st.value.id in dict(s.data):
                self.returned.append(V.thaw(dict(s.data)[st.value.id]))
            else:
                self.returned.append(self.an.ev(st.value, self.g, self.cls) if st.value is not None else BOT)
        return super().do_Return(st, states)


class Analyzer:
    def __init__(self, project):
        self.p = project
        self.envs = {}
        self.rets = {}
        self.attrs = {}
        self.busy = set()
        self.mods = {}
        self.spec = {}
        self.globs = {}
        self.needs = {}
        self._attr_index()

    # ------------------------------------------------------------------ package-wide index of attribute stores
    def _attr_index(self):
        self.attr_assign = {}   # attr -> [(owner FuncInfo, is_self, value or None)]
        self.attr_item = {}     # attr -> [(FuncInfo, how, node)] item stores / updates
        self.funcs = list(self.p.all_functions())
        for f in self.funcs:
            me = f.params()[0] if f.cls is not None and not f.is_static and f.params() else None
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        self._tgt(f, me, t, n.value)
                elif isinstance(n, ast.AnnAssign) and n.value is not None:
                    self._tgt(f, me, n.target, n.value)
                elif isinstance(n, ast.AugAssign):
                    if isinstance(n.target, ast.Attribute):
                        self.attr_assign.setdefault(n.target.attr, []).append((f, self._is(n.target, me), n))
                elif isinstance(n, (ast.For, ast.AsyncFor)):
                    self._tgt(f, me, n.target, None)
                elif isinstance(n, (ast.With, ast.AsyncWith)):
                    for i in n.items:
                        if i.optional_vars is not None:
                            self._tgt(f, me, i.optional_vars, None)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Attribute):
                    if n.func.attr in ("update", "setdefault", "insert", "rename", "reset_index"):
                        self.attr_item.setdefault(n.func.value.attr, []).append((f, self._is(n.func.value, me), n))
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                    a = n.args[1] if len(n.args) > 1 else None
                    if isinstance(a, ast.Constant):
                        self.attr_assign.setdefault(a.value, []).append((f, False, None))

    def _is(self, a, me):
        return isinstance(a.value, ast.Name) and a.value.id == me

    def _tgt(self, f, me, t, v):
        if isinstance(t, ast.Attribute):
            self.attr_assign.setdefault(t.attr, []).append((f, self._is(t, me), v))
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute):
            self.attr_item.setdefault(t.value.attr, []).append((f, self._is(t.value, me), t))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                self._tgt(f, me, e, None)
        elif isinstance(t, ast.Starred):
            self._tgt(f, me, t.value, None)

    # ------------------------------------------------------------------ constants
    def strs(self, node, f, depth=0):
        """list of string constants an expression certainly is, or None"""
        if isinstance(node, (ast.List, ast.Tuple, ast.Set)):
            out = []
            for e in node.elts:
                if isinstance(e, ast.Constant) and isinstance(e.value, str):
                    out.append(e.value)
                else:
                    s = self.strval(e, f)
                    if s is None:
                        return None
                    out.append(s)
            return out
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            return [x.strip() for x in node.value.split(",")]
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
            a, b = self.strs(node.left, f, depth), self.strs(node.right, f, depth)
            return a + b if a is not None and b is not None else None
        if isinstance(node, ast.Name) and depth < 3:
            d = self.single(node.id, f)
            if d is not None:
                return self.strs(d, f, depth + 1)
        return None

    def seq(self, node, f):
        """the strings iterating over an expression yields, or None"""
        if isinstance(node, ast.Constant):
            return list(node.value) if isinstance(node.value, str) else None
        if isinstance(node, ast.Name):
            d = self.single(node.id, f)
            if isinstance(d, ast.Constant):
                return self.seq(d, f)
        if isinstance(node, ast.Attribute) and f.cls is not None and f.params() and isinstance(node.value, ast.Name) and node.value.id == f.params()[0]:
            st = self.attr_assign.get(node.attr, [])
            own = [(g, v) for g, me, v in st if not me or g.cls in self.p.mro(f.cls) or f.cls in self.p.mro(g.cls)]
            if len(own) == 1 and isinstance(own[0][1], (ast.List, ast.Tuple, ast.Constant)) and node.attr not in self.attr_item:
                return self.seq(own[0][1], own[0][0])
            return None
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "keys" and not node.args or isinstance(node, ast.Name):
            b = node.func.value if isinstance(node, ast.Call) else node
            d = self.single(b.id, f) if isinstance(b, ast.Name) else None
            if isinstance(d, ast.Dict) and all(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in d.keys):
                return [k.value for k in d.keys]
        return self.strs(node, f)

    def strval(self, node, f):
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            return node.value
        if isinstance(node, ast.Name):
            d = self.single(node.id, f)
            if d is not None:
                return self.strval(d, f)
        if isinstance(node, (ast.BinOp, ast.JoinedStr, ast.Call)):
            s = pattern(node)
            return s if s.strip("*") else None
        return None

    def single(self, name, f):
        """value node of a local assigned exactly once in plain form and never changed in place"""
        ds = self.defs(f).get(name)
        if ds is None:
            return None
        if len(ds) == 1 and ds[0][0] == "assign" and name not in f.all_params():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == name and n.func.attr in ("append", "extend", "insert", "remove", "pop", "clear", "sort"):
                    return None
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
                    return None
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == name:
                    return None
            return ds[0][1]
        return None

    def loop_consts(self, name, f):
        """values of a loop variable over a literal sequence of strings"""
        ds = self.defs(f).get(name)
        if not ds:
            return None
        out = []
        for kind, v in ds:
            if kind == "for" and v is not None:
                s = self.seq(v, f)
                if s is None:
                    return None
                out += s
            elif kind == "assign" and isinstance(v, ast.Constant) and isinstance(v.value, str):
                out.append(v.value)
            else:
                return None
        return out

    def keyset(self, node, f):
        """possible constant values of a key expression, or None"""
        if isinstance(node, ast.Constant):
            return [node.value]
        if isinstance(node, ast.Name) and name_local(f, node.id):
            return self.loop_consts(node.id, f)
        if isinstance(node, (ast.BinOp, ast.JoinedStr, ast.Call)):
            s = pattern(node)
            return [s] if s.strip("*") else None
        return None

    # ------------------------------------------------------------------ definitions
    def defs(self, f):
        d = getattr(f, "_recdefs", None)
        if d is not None:
            return d
        d = {}

        def put(t, kind, v):
            if isinstance(t, ast.Name):
                d.setdefault(t.id, []).append((kind, v))
            elif isinstance(t, (ast.Tuple, ast.List)):
                if kind == "assign" and isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) and not any(isinstance(e, ast.Starred) for e in t.elts):
                    for a, b in zip(t.elts, v.elts):
                        put(a, "assign", b)
                else:
                    for i, e in enumerate(t.elts):
                        put(e, "unpack" if kind == "assign" else "unpackfor", (v, i) if v is not None and not any(isinstance(x, ast.Starred) for x in t.elts) else None)
            elif isinstance(t, ast.Starred):
                put(t.value, "other", None)

        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    put(t, "assign", n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                put(n.target, "assign", n.value)
            elif isinstance(n, ast.NamedExpr):
                put(n.target, "assign", n.value)
            elif isinstance(n, ast.AugAssign):
                put(n.target, "aug", n)
            elif isinstance(n, (ast.For, ast.AsyncFor)):
                put(n.target, "for", n.iter)
            elif isinstance(n, ast.comprehension):
                put(n.target, "for", n.iter)
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                for i in n.items:
                    if i.optional_vars is not None:
                        put(i.optional_vars, "other", None)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                d.setdefault(n.name, []).append(("other", None))
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    d.setdefault((a.asname or a.name).split(".")[0], []).append(("other", None))
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and n is not f.node:
                d.setdefault(n.name, []).append(("other", None))
                if not isinstance(n, ast.ClassDef):
                    for x in n.args.posonlyargs + n.args.args + n.args.kwonlyargs:
                        d.setdefault(x.arg, []).append(("other", None))
            elif isinstance(n, ast.Lambda):
                for x in n.args.posonlyargs + n.args.args + n.args.kwonlyargs:
                    d.setdefault(x.arg, []).append(("other", None))
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                for x in n.names:
                    d.setdefault(x, []).append(("other", None))
        f._recdefs = d
        return d

    def groups(self, f):
        """names that may be the same object through plain copies"""
        g = getattr(f, "_recgroups", None)
        if g is None:
            parent = {}

            def find(x):
                while parent.get(x, x) != x:
                    x = parent[x]
                return x
            for k, ds in self.defs(f).items():
                for kind, v in ds:
                    vs = [v] if isinstance(v, ast.AST) else []
                    if vs and isinstance(v, ast.IfExp):
                        vs = [v.body, v.orelse]
                    if vs and isinstance(v, ast.BoolOp):
                        vs = v.values
                    if kind == "assign":
                        for x in vs:
                            if isinstance(x, ast.Name):
                                parent[find(k)] = find(x.id)
            g = {}
            for k in set(self.defs(f)) | set(f.all_params()):
                g.setdefault(find(k), set()).add(k)
            g = {k: mem for mem in g.values() for k in mem}
            f._recgroups = g
        return g

    # ------------------------------------------------------------------ local values
    def local(self, name, f, cls):
        k = (id(f), name, id(cls) if f.cls is not None else 0)
        if k in self.envs:
            return self.envs[k]
        if k in self.busy:
            return BOT
        self.busy.add(k)
        n_busy = len(self.busy)
        grp = self.groups(f).get(name, {name})
        vals = []
        for nm in grp:
            if nm in f.all_params():
                vals.append(self.param(nm, f, cls))
            for kind, v in self.defs(f).get(nm, []):
                if kind == "assign":
                    if isinstance(v, ast.Name) and v.id in grp:
                        continue
                    vals.append(self.ev(v, f, cls))
                elif kind == "unpack" and v is not None:
                    vals.append(self.unpacked(v[0], v[1], f, cls))
                elif kind == "aug" and isinstance(v.op, ast.BitOr):
                    vals.append(self.ev(v.value, f, cls))
                else:
                    vals.append(UNKNOWN)
        r = join(vals) if vals else UNKNOWN
        if r is not UNKNOWN and r.kind != "bot":
            r = self.stores_into(r, grp, f, cls)
        self.busy.discard(k)
        if not self.busy:
            self.envs[k] = r
        else:
            self.envs[k] = r if r is UNKNOWN else r
            if any(b for b in self.busy):
                self.envs.pop(k, None) if n_busy > 1 and r is BOT else None
        return r

    def param(self, name, f, cls):
        d = f.defaults().get(name) if hasattr(f, "defaults") else None
        if isinstance(d, ast.Constant) and d.value is None:
            return BOT      # left out; what the function puts in its place is judged
        if name.startswith("reduce"):
            return UNKNOWN
        if f.cls is not None and f.name.startswith("reduce") and f.params()[1:2] == [name] and cls is not None:
            g = self.p.find_method(cls, "run")
            if g is not None and g.cls.name != "BaseMetric":
                return self.ret(g, cls)     # reductions are given what the metric returned
        return UNKNOWN

    def stores_into(self, r, grp, f, cls):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in grp:
                if r.kind == "rec":
                    continue        # a record array cannot gain fields by assignment
                ks = self.keyset(n.slice, f)
                if ks is None:
                    r = r.with_(user=True) if self.from_caller(n.slice, f) else r.with_(open=True)
                else:
                    r = r.with_(keys=ks)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in grp:
                r = self.method_effect(r, n, f, cls)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in grp:
                if n.attr in ("columns", "names", "dtype"):
                    r = r.with_(open=True)
            elif isinstance(n, ast.Call):
                for i, a in enumerate(list(n.args) + [k.value for k in n.keywords]):
                    if isinstance(a, ast.Name) and a.id in grp:
                        add = self.callee_adds(n, i, f)
                        if add is True:
                            r = r.with_(open=True)
                        elif add:
                            r = r.with_(keys=add)
            elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in grp:
                for t in n.targets:
                    if isinstance(t, ast.Attribute):
                        for ff, me, x in self.attr_item.get(t.attr, []):
                            r = self.item_effect(r, x, ff, None)
            if r.open and not r.keys:
                break
        return r

    def from_caller(self, node, f):
        """a key taken from a mapping the caller supplied"""
        if not isinstance(node, ast.Name):
            return False
        ds = self.defs(f).get(node.id)
        if not ds:
            return False
        its = [v for kind, v in ds if kind == "for"]
        its += [v[0] for kind, v in ds if kind == "unpackfor" and v is not None and v[1] == 0]
        if len(its) != len(ds):
            return False
        for it in its:
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ("keys", "items"):
                it = it.func.value
            if not (isinstance(it, ast.Name) and it.id in f.all_params()):
                return False
        return True

    def method_effect(self, r, n, f, cls):
        m = n.func.attr
        if m == "update":
            for a in n.args:
                r = self.merge(r, a, f, cls)
            for k in n.keywords:
                r = r.with_(keys=[k.arg]) if k.arg else self.merge(r, k.value, f, cls)
        elif m == "setdefault" and n.args:
            ks = self.keyset(n.args[0], f)
            r = r.with_(keys=ks or (), open=ks is None)
        elif m in ("insert", "rename", "reset_index", "__setitem__", "join", "eval", "set_axis"):
            r = r.with_(open=True)
        return r

    def merge(self, r, node, f, cls):
        if isinstance(node, ast.BoolOp):
            for x in node.values:
                r = self.merge(r, x, f, cls)
            return r
        v = self.ev(node, f, cls)
        if v is UNKNOWN:
            if isinstance(node, ast.Name) and node.id in f.all_params():
                own = {n.slice.value for n in ast.walk(f.node) if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name)
                       and n.value.id == node.id and isinstance(n.slice, ast.Constant)}
                return r.with_(keys=own, user=True)
            return r.with_(open=True)
        if v.kind == "bot":
            return r
        return r.with_(keys=v.keys, open=v.open, user=v.user)

    def item_effect(self, r, x, f, cls):
        if isinstance(x, ast.Subscript):
            if r.kind == "rec":
                return r
            ks = self.keyset(x.slice, f)
            return r.with_(keys=ks or (), open=ks is None)
        return self.method_effect(r, x, f, cls)

    def callee_adds(self, call, i, f):
        """entries the callee may put into this argument: a set of names, or True for any"""
        t = call_target(self.p, f, call)
        cands = []
        if t is not None:
            cands = [t]
        elif isinstance(call.func, ast.Attribute):
            if call.func.attr in ("append", "dump", "dumps", "update", "print", "join", "format"):
                return set()
            cands = [(g, g.cls is not None and not g.is_static) for g in self.funcs if g.name == call.func.attr and g.cls is not None]
        out = set()
        for g, bound in cands:
            ps = g.params()[1 if bound else 0:]
            if i < len(call.args):
                if i >= len(ps):
                    if g.node.args.vararg:
                        return True
                    continue
                p = ps[i]
            else:
                p = call.keywords[i - len(call.args)].arg
                if p is None:
                    continue
            a = self.param_adds(g, p)
            if a is True:
                return True
            out |= a
        return out

    def param_adds(self, g, p):
        k = (id(g), p)
        if k in self.mods:
            return self.mods[k]
        self.mods[k] = set()
        grp = self.groups(g).get(p, {p})
        r = set()
        for n in ast.walk(g.node):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in grp:
                ks = self.keyset(n.slice, g)
                if ks is None:
                    r = True
                else:
                    r |= set(ks)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in grp and n.func.attr in ("update", "setdefault", "insert", "rename"):
                r = True
            elif isinstance(n, ast.Call):
                for i, a in enumerate(list(n.args) + [x.value for x in n.keywords]):
                    if isinstance(a, ast.Name) and a.id in grp:
                        add = self.callee_adds(n, i, g)
                        r = True if add is True else r | add
                        if r is True:
                            break
            elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in grp and any(isinstance(t, ast.Attribute) for t in n.targets):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and self.attr_item.get(t.attr):
                        r = True
            if r is True:
                break
        self.mods[k] = r
        return r

    # ------------------------------------------------------------------ attributes
    def attr(self, cls, name):
        """value of self.name for objects of exactly this class"""
        k = (id(cls), name)
        if k in self.attrs:
            return self.attrs[k]
        self.attrs[k] = BOT
        fam = [c for c in self.p.mro(cls)]
        famset = {id(c) for c in fam}
        chain, v = self.init_value(cls, name)
        vals = [v] if v is not BOT else []
        for f, me, val in self.attr_assign.get(name, []):
            if me and f.cls is not None and id(f.cls) not in famset:
                continue
            if me and id(f) in chain:
                continue
            if me and f.name == "__init__":
                # a base constructor that this class's own one does not run
                continue
            if val is None:
                vals.append(UNKNOWN)
            elif isinstance(val, ast.AugAssign):
                vals.append(UNKNOWN)
            else:
                vals.append(self.ev(val, f, f.cls if not me else cls))
        for c in fam:
            if name in c.attrs and c.attrs[name] is not None:
                fake = self.modfunc(c.module)
                vals.append(self.ev(c.attrs[name], fake, None))
                break
            if name in c.methods:
                g = c.methods[name]
                vals.append(self.ret(g, cls) if g.is_property else UNKNOWN)
                break
        r = join(vals) if vals else UNKNOWN
        if r is not UNKNOWN and r.kind != "bot":
            for f, me, x in self.attr_item.get(name, []):
                if me and f.cls is not None and id(f.cls) not in famset:
                    continue
                if me and id(f) in chain:
                    continue
                r = self.item_effect(r, x, f, cls if me else f.cls)
        if r is BOT:
            r = UNKNOWN
        self.attrs[k] = r
        return r

    def init_value(self, cls, name, owner=None):
        """value the constructor chain leaves in self.name; also the constructors run"""
        init = self.p.find_method(cls, "__init__") if owner is None else owner
        if init is None:
            return set(), BOT
        chain = {id(init)}
        me = init.params()[0] if init.params() else "self"
        cur = BOT
        for st in self.statements(init.node.body):
            for n in self.stmt_nodes(st):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "__init__":
                    t = call_target(self.p, init, n)
                    g = t[0] if t is not None else None
                    if g is None and isinstance(n.func.value, ast.Call):
                        g = self.p.find_method_after(init.cls, init.cls, "__init__")
                    if g is not None:
                        c2, v = self.init_value(cls, name, g)
                        chain |= c2
                        if v is UNKNOWN or v.kind != "bot":
                            cur = v
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and self._is(t, me) and t.attr == name:
                            v = self.ev(n.value, init, cls)
                            cur = v if self.straight(init, st) else join([cur, v])
                        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and self._is(t.value, me) and t.value.attr == name and cur is not UNKNOWN and cur.kind != "bot":
                            cur = self.item_effect(cur, t, init, cls)
                        elif isinstance(t, (ast.Tuple, ast.List)) and any(isinstance(x, ast.Attribute) and x.attr == name for x in ast.walk(t)):
                            cur = UNKNOWN
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Attribute) and self._is(n.func.value, me) and n.func.value.attr == name:
                    if cur is not UNKNOWN and cur.kind != "bot":
                        cur = self.method_effect(cur, n, init, cls)
        return chain, cur

    def straight(self, fi, st):
        return any(st is x for x in fi.node.body)

    def statements(self, body):
        for st in body:
            yield st
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                continue
            for fld in ("body", "orelse", "finalbody"):
                sub = getattr(st, fld, None)
                if isinstance(sub, list):
                    yield from self.statements(sub)
            for h in getattr(st, "handlers", []):
                yield from self.statements(h.body)

    def stmt_nodes(self, st):
        """the statement itself and the calls in its own expressions (not in nested statements)"""
        yield st
        todo = [c for c in ast.iter_child_nodes(st) if isinstance(c, ast.expr)]
        while todo:
            n = todo.pop()
            if isinstance(n, ast.Call):
                yield n
            todo += [c for c in ast.iter_child_nodes(n) if isinstance(c, (ast.expr, ast.keyword))]

    def modfunc(self, m):
        r = getattr(m, "_recmod", None)
        if r is None:
            class Fake:
                pass
            r = Fake()
            r.module, r.cls, r.parent, r.is_static, r.is_classmethod = m, None, None, True, False
            r.name = r.qualname = "<module>"
            r.node = ast.Module([], [])
            r.params = r.all_params = lambda: []
            r.relpath = m.relpath
            m._recmod = r
        return r

    # ------------------------------------------------------------------ returns
    def ret(self, g, cls, idx=None):
        k = (id(g), id(cls) if g.cls is not None else 0, idx)
        if k in self.rets:
            return self.rets[k]
        self.rets[k] = BOT
        vals = []
        if g.is_generator or [d for d in g.decorators if d not in ("staticmethod", "classmethod", "property")]:
            vals = [UNKNOWN]
        else:
            for n in walk_own(g.node):
                if isinstance(n, ast.Return) and n.value is not None:
                    v = n.value
                    if idx is not None:
                        if isinstance(v, ast.Tuple) and idx < len(v.elts):
                            v = v.elts[idx]
                        elif isinstance(v, ast.Constant) and v.value is None:
                            continue
                        else:
                            vals.append(UNKNOWN)
                            continue
                    vals.append(self.ev(v, g, cls))
        r = join(vals) if vals else UNKNOWN
        if r is BOT:
            r = UNKNOWN
        self.rets[k] = r
        return r

    def specialised(self, g, cls, bound, call, general):
        """the same result for the arguments of this very call, where they select between different dictionaries"""
        if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
            return general
        facts = {}
        for p, d in g.defaults().items():
            if isinstance(d, ast.Constant):
                facts[p] = ("eq", d.value)
        given = list(zip(g.params()[1 if bound else 0:], call.args)) + [(k.arg, k.value) for k in call.keywords]
        for p, a in given:
            facts.pop(p, None)
            if isinstance(a, ast.Constant):
                facts[p] = ("eq", a.value)
        if not facts:
            return general
        key = (id(g), id(cls), repr(sorted(facts.items())))
        if key not in self.spec:
            self.spec[key] = general
            w = PathKeys(self, g, cls)
            for p in facts:
                w.deps[p] = {p}
            w.run((), facts)
            r = join(w.returned) if w.returned else UNKNOWN
            self.spec[key] = r if r is not UNKNOWN and r.kind != "bot" else general
        return self.spec[key]

    def unpacked(self, v, i, f, cls):
        if isinstance(v, ast.Call):
            t = call_target(self.p, f, v)
            if t is not None and t[0].name != "__init__":
                return self.ret(t[0], cls if t[0].cls is f.cls else t[0].cls, i)
        return UNKNOWN

    # ------------------------------------------------------------------ expressions
    def ev(self, node, f, cls):
        if isinstance(node, ast.Constant):
            return BOT if not isinstance(node.value, str) else UNKNOWN
        if isinstance(node, ast.Dict):
            r = V()
            for k, v in zip(node.keys, node.values):
                if k is None:
                    r = self.merge(r, v, f, cls)
                else:
                    ks = self.keyset(k, f)
                    r = r.with_(keys=ks or (), open=ks is None)
            return r
        if isinstance(node, ast.DictComp):
            if len(node.generators) == 1 and isinstance(node.key, ast.Name) and isinstance(node.generators[0].target, ast.Name) and node.key.id == node.generators[0].target.id:
                s = self.seq(node.generators[0].iter, f)
                if s is not None and not node.generators[0].ifs:
                    return V(s)
            return V(open=True)
        if isinstance(node, ast.IfExp):
            return join([self.ev(node.body, f, cls), self.ev(node.orelse, f, cls)])
        if isinstance(node, ast.BoolOp):
            return join([self.ev(v, f, cls) for v in node.values])
        if isinstance(node, ast.NamedExpr):
            return self.ev(node.value, f, cls)
        if isinstance(node, ast.Name):
            if name_local(f, node.id):
                return self.local(node.id, f, cls)
            return self.glob(node, f)
        if isinstance(node, ast.Attribute):
            if node.attr in ("badval", "nan"):
                return BOT
            if isinstance(node.value, ast.Name) and f.cls is not None and f.params() and node.value.id == f.params()[0] and not f.is_static and cls is not None:
                return self.attr(cls, node.attr)
            return UNKNOWN
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
            a = self.ev(node.left, f, cls)
            return self.merge(a, node.right, f, cls) if a is not UNKNOWN and a.kind == "dict" else UNKNOWN
        if isinstance(node, ast.Subscript):
            v = self.ev(node.value, f, cls)
            if v is UNKNOWN or v.kind == "bot":
                return v
            if v.kind == "rec":
                if isinstance(node.slice, ast.Constant) and isinstance(node.slice.value, str):
                    return UNKNOWN
                s = self.strs(node.slice, f) if isinstance(node.slice, ast.List) and node.slice.elts else None
                if s is not None:
                    return V(s, kind="rec")
                if isinstance(node.slice, (ast.Name, ast.Attribute, ast.JoinedStr)) and self.keyset(node.slice, f):
                    return UNKNOWN
                # a string held in a variable would give a column, from which no named entry is read
                return v
            return UNKNOWN
        if isinstance(node, ast.Call):
            return self.call(node, f, cls)
        return UNKNOWN

    def glob(self, node, f):
        r = self.p.resolve(f.module, node.id)
        if r is None or r[0] != "assign":
            return UNKNOWN
        m, name = r[1], r[2]
        k = (m.name, name)
        if k not in self.globs:
            self.globs[k] = UNKNOWN
            val, n_def = None, 0
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, (ast.Store, ast.Del)):
                    n_def += 1
                if isinstance(x, (ast.Assign, ast.AnnAssign)) and any(isinstance(t, ast.Name) and t.id == name for t in (x.targets if isinstance(x, ast.Assign) else [x.target])):
                    val = x.value
            if n_def == 1 and val is not None:
                fake = self.modfunc(m)
                v = self.ev(val, fake, None)
                if v is not UNKNOWN and v.kind == "dict":
                    # entries added anywhere in the package under that name
                    for mm in self.p.modules.values():
                        if name not in mm.src:
                            continue
                        for x in ast.walk(mm.tree):
                            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == name:
                                v = v.with_(keys=[x.slice.value]) if isinstance(x.slice, ast.Constant) else v.with_(open=True)
                            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == name:
                                v = self.method_effect(v, x, fake, None)
                    self.globs[k] = v
        return self.globs[k]

    def dtype_names(self, node, f):
        if isinstance(node, ast.Name):
            d = self.single(node.id, f)
            return self.dtype_names(d, f) if d is not None else None
        if isinstance(node, ast.List):
            out = []
            for e in node.elts:
                if isinstance(e, ast.Tuple) and e.elts:
                    s = self.strval(e.elts[0], f)
                    if s is None:
                        return None
                    out.append(s)
                else:
                    return None
            return out or None
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
            a, b = self.dtype_names(node.left, f), self.dtype_names(node.right, f)
            return a + b if a and b else None
        if isinstance(node, ast.Call):
            fn = ast.unparse(node.func)
            if fn == "list" and len(node.args) == 1:
                return self.dtype_names(node.args[0], f)
            if fn == "zip" and len(node.args) == 2:
                return self.strs(node.args[0], f) if not isinstance(node.args[0], ast.Constant) else None
            if fn in ("np.dtype", "numpy.dtype") and node.args:
                return self.dtype_names(node.args[0], f)
        if isinstance(node, ast.ListComp):
            g = node.generators
            if len(g) == 1 and isinstance(node.elt, ast.Tuple) and isinstance(g[0].target, ast.Name) and isinstance(node.elt.elts[0], ast.Name) and node.elt.elts[0].id == g[0].target.id and not g[0].ifs:
                return self.strs(g[0].iter, f) if not isinstance(g[0].iter, ast.Constant) else None
        return None

    def call(self, node, f, cls):
        fn = node.func
        kw = {k.arg: k.value for k in node.keywords}
        if isinstance(fn, ast.Name) and not shadowed(f.module, fn):
            if fn.id == "dict":
                r = V()
                for a in node.args:
                    if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "zip" and a.args:
                        s = self.strs(a.args[0], f) if not isinstance(a.args[0], ast.Constant) else None
                        r = r.with_(keys=s or (), open=s is None)
                    else:
                        r = self.merge(r, a, f, cls)
                for k in node.keywords:
                    r = r.with_(keys=[k.arg]) if k.arg else self.merge(r, k.value, f, cls)
                return r
        if isinstance(fn, ast.Attribute) or isinstance(fn, ast.Name):
            txt = ast.unparse(fn)
            if txt in ("copy.copy", "copy.deepcopy", "deepcopy") and node.args:
                return self.ev(node.args[0], f, cls)
            if txt in ("np.copy", "np.sort", "np.ma.filled", "np.unique", "np.flip", "np.ravel") and node.args and "return_index" not in kw and "return_inverse" not in kw and "return_counts" not in kw:
                v = self.ev(node.args[0], f, cls)
                return v if v is UNKNOWN or v.kind in ("rec", "bot") else UNKNOWN
            if txt in ("np.zeros", "np.ones", "np.empty", "np.full", "np.array", "np.zeros_like", "np.recarray", "numpy.zeros", "numpy.empty", "np.rec.array", "np.asarray"):
                dt = kw.get("dtype")
                if dt is None and txt in ("np.zeros", "np.ones", "np.empty", "np.array") and len(node.args) > 1:
                    dt = node.args[1]
                if dt is not None:
                    s = self.dtype_names(dt, f)
                    if s:
                        return V(s, kind="rec")
                if txt in ("np.rec.array",) and "names" in kw:
                    s = self.strs(kw["names"], f)
                    return V(s, kind="rec") if s else UNKNOWN
                return UNKNOWN
            if txt.split(".")[-1] in ("append_fields", "rec_append_fields") and len(node.args) >= 2:
                v = self.ev(node.args[0], f, cls)
                if v is UNKNOWN:
                    return UNKNOWN
                s = [self.strval(node.args[1], f)] if not isinstance(node.args[1], (ast.List, ast.Tuple)) else self.strs(node.args[1], f)
                if s == [None] and isinstance(node.args[1], ast.Name):
                    s = self.strs(node.args[1], f)
                if s is None or None in s:
                    return UNKNOWN
                return V(v.keys | set(s), v.open, v.user, "rec") if v.kind in ("rec", "bot") else UNKNOWN
            if txt.split(".")[-1] in ("fromrecords", "fromarrays") and ("names" in kw or "dtype" in kw):
                s = self.strs(kw["names"], f) if "names" in kw else self.dtype_names(kw["dtype"], f)
                return V(s, kind="rec") if s else UNKNOWN
            if txt in ("pd.DataFrame", "pandas.DataFrame"):
                a = node.args[0] if node.args else kw.get("data")
                if "columns" in kw:
                    s = self.strs(kw["columns"], f) if not isinstance(kw["columns"], ast.Constant) else None
                    return V(s, kind="df") if s else UNKNOWN
                if a is None:
                    return V(kind="df") if not node.args and "index" not in kw else UNKNOWN
                v = self.ev(a, f, cls)
                if v is not UNKNOWN and v.kind in ("dict", "rec"):
                    return V(v.keys, v.open, v.user, "df")
                return UNKNOWN
            if isinstance(fn, ast.Attribute) and fn.attr == "copy" and not node.args:
                return self.ev(fn.value, f, cls)
            if isinstance(fn, ast.Attribute) and fn.attr in ("filled", "flatten", "ravel") and txt != "np.ravel":
                v = self.ev(fn.value, f, cls)
                return v if v is UNKNOWN or v.kind in ("rec", "bot") else UNKNOWN
        t = call_target(self.p, f, node)
        if t is not None and t[0].name != "__init__":
            g = t[0]
            c2 = cls if (g.cls is not None and f.cls is not None and g.cls in self.p.mro(f.cls)) else g.cls
            r = self.ret(g, c2)
            if r is not UNKNOWN and r.kind == "dict" and g.all_params():
                r = self.specialised(g, c2, t[1], node, r)
            return r
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and cls is not None and f.cls is not None and f.params() and fn.value.id == f.params()[0]:
            g = self.p.find_method(cls, fn.attr)
            if g is not None and not [d for d in g.decorators if d not in ("staticmethod", "classmethod")]:
                return self.ret(g, cls)
        return UNKNOWN


def name_local(f, name):
    l = getattr(f, "_reclocals", None)
    if l is None:
        l = set(f.all_params())
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                l.add(n.id)
        f._reclocals = l
    return name in l


def guarded(f):
    """ids of subscript reads that a membership test or an exception handler answers for"""
    out = set()
    from ..util import parent_map
    for n in ast.walk(f.node):
        if isinstance(n, ast.Try) and any(h.type is None or any(e in ast.unparse(h.type) for e in ("KeyError", "Exception", "LookupError", "ValueError", "IndexError")) for h in n.handlers):
            for st in n.body + n.handlers:      # a handler is the fallback for what may be missing
                out |= {id(x) for x in ast.walk(st)}
        if isinstance(n, (ast.If, ast.IfExp, ast.While, ast.BoolOp)):
            t = n.test if not isinstance(n, ast.BoolOp) else n
            tested = {(ast.unparse(c.comparators[0]).removesuffix(".keys()"), ast.unparse(c.left)) for c in ast.walk(t)
                      if isinstance(c, ast.Compare) and isinstance(c.ops[0], (ast.In, ast.NotIn))}
            tested |= {(ast.unparse(c.func.value), ast.unparse(c.args[0])) for c in ast.walk(t) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "get" and c.args}
            if tested:
                leaves = isinstance(n, ast.If) and isinstance(n.body[-1], (ast.Raise, ast.Return, ast.Continue, ast.Break))
                for x in ast.walk(f.node if leaves else n):
                    if isinstance(x, ast.Subscript) and (ast.unparse(x.value), ast.unparse(x.slice)) in tested:
                        out.add(id(x))
    return out


# what PlotHandler.set_plot_dicts puts into every plot_dict before it calls a plotter
def handler_keys(project, an):
    out = set()
    c = next(iter(project.class_named("PlotHandler")), None)
    if c is None or "set_plot_dicts" not in c.methods:
        return out
    for f in reached_in_class(project, c, [c.methods["set_plot_dicts"]]):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
                out.add(n.slice.value)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "update":
                out |= {k.arg for k in n.keywords if k.arg} | {k.value for a in n.args if isinstance(a, ast.Dict) for k in a.keys if isinstance(k, ast.Constant)}
    return out


def reached_in_class(project, c, start, skip=()):
    """methods of c reached from the given ones through self.method() calls, and module functions they call"""
    out = list(start)
    for f in out:
        me = f.params()[0] if f.params() and f.cls is not None else None
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call):
                continue
            h = None
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == me:
                h = project.find_method(c, n.func.attr)
            elif isinstance(n.func, ast.Name):
                h = f.module.functions.get(n.func.id) if isinstance(getattr(f.module, "functions", None), dict) else None
            if h is not None and h not in out and not any(x in h.name for x in skip):
                out.append(h)
    return out


def always_run(body):
    """expressions evaluated on every run of a body that completes"""
    for st in body:
        if isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                yield i.context_expr
            yield from always_run(st.body)
        elif isinstance(st, (ast.If, ast.While)):
            yield st.test
            if any(isinstance(x, (ast.Return, ast.Break, ast.Continue)) for x in ast.walk(st)):
                return
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            yield st.iter
            if any(isinstance(x, ast.Return) for x in ast.walk(st)):
                return
        elif isinstance(st, ast.Try):
            if any(isinstance(x, ast.Return) for x in ast.walk(st)):
                return
        elif isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        else:
            for c in ast.iter_child_nodes(st):
                if isinstance(c, ast.expr):
                    yield c
            if isinstance(st, (ast.Return, ast.Raise)):
                return


def sure_nodes(e):
    """sub-expressions evaluated whenever the expression is"""
    yield e
    if isinstance(e, ast.BoolOp):
        yield from sure_nodes(e.values[0])
    elif isinstance(e, ast.IfExp):
        yield from sure_nodes(e.test)
    elif isinstance(e, (ast.Lambda, ast.GeneratorExp)):
        return
    elif isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp)):
        yield from sure_nodes(e.generators[0].iter)
    else:
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                yield from sure_nodes(c)
            elif isinstance(c, ast.keyword):
                yield from sure_nodes(c.value)


def needs(an, g, p, depth=0):
    """entries a function reads from its parameter on every run"""
    k = (id(g), p)
    if k in an.needs:
        return an.needs[k]
    an.needs[k] = {}
    if any(isinstance(n, ast.Name) and n.id == p and isinstance(n.ctx, (ast.Store, ast.Del)) for n in ast.walk(g.node)):
        return an.needs[k]
    out = {}
    gd = guarded(g)
    for e in always_run(g.node.body):
        for n in sure_nodes(e):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == p and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str) and id(n) not in gd:
                out.setdefault(n.slice.value, g.qualname)
            elif isinstance(n, ast.Call) and depth < 4:
                t = call_target(an.p, g, n)
                if t is not None:
                    for q, a in bound_args(t[0], t[1], n):
                        if isinstance(a, ast.Name) and a.id == p:
                            for kk, w in needs(an, t[0], q, depth + 1).items():
                                out.setdefault(kk, w)
    for n in ast.walk(g.node):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == p:
            if isinstance(n.slice, ast.Constant):
                out.pop(n.slice.value, None)
            else:
                out = {}
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == p and n.func.attr in ("update", "setdefault", "insert"):
            out = {}
    an.needs[k] = out
    return out


def bound_args(g, bound, call):
    out = []
    for q, a in zip(g.params()[1 if bound else 0:], call.args):
        if isinstance(a, ast.Starred):
            break
        out.append((q, a))
    ok = set(g.params() + g.kwonly())
    return out + [(k.arg, k.value) for k in call.keywords if k.arg in ok]


def check_passed(project, tier):
    """a mapping or record handed to a package function has the entries that function always reads"""
    res = Result()
    an = Analyzer(project)
    for f in an.funcs:
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call):
                continue
            t = call_target(project, f, n)
            if t is None:
                continue
            for q, a in bound_args(t[0], t[1], n):
                if isinstance(a, ast.Constant):
                    continue
                need = needs(an, t[0], q)
                if not need:
                    continue
                v = an.ev(a, f, f.cls)
                if v is UNKNOWN or v.kind == "bot" or v.open or v.user:
                    continue
                res.count("entries_passed", len(need))
                res.count("calls_with_known_mappings")
                for k, w in sorted(need.items()):
                    if not has(v.keys, k):
                        res.add("unset-argument-entry", where(f), f"{t[0].name}({q}={ast.unparse(a)[:40]})[{k!r}]",
                                f"hands {ast.unparse(a)[:40]} to {t[0].qualname}, where {w} reads entry {k!r}, which nothing puts there; it has {', '.join(sorted(map(str, v.keys))[:14])}", n.lineno)
    return res


def check(project, tier):
    res = Result()
    an = Analyzer(project)
    base = next(iter(project.class_named("BasePlotter")), None)
    supplied = handler_keys(project, an)
    for f in an.funcs:
        g = None
        classes = [None]
        if f.cls is not None:
            subs = [c for c in project.subclasses(f.cls, include=True) if project.find_method(c, f.name) is f or f.name == "__init__"]
            classes = subs or [f.cls]
        reads = [n for n in ast.walk(f.node) if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Load, ast.Store)) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str)]
        if not reads:
            continue
        res.count("functions")
        for n in reads:
            miss, seen = [], 0
            for c in classes:
                v = an.ev(n.value, f, c)
                if v is UNKNOWN or v.kind == "bot":
                    continue
                plotter = c is not None and base is not None and project.is_subclass(c, base)
                if v.open or v.user and not plotter:
                    continue
                if isinstance(n.ctx, ast.Store) and v.kind != "rec":
                    continue        # only the fields of a record array are fixed when it is made
                seen += 1
                if has(v.keys, n.slice.value) or (plotter and v.user and n.slice.value in supplied):
                    continue
                miss.append((c, v))
            if not seen:
                continue
            res.count("entries_read")
            if not miss:
                continue
            if f.cls is not None and len(miss) < seen:
                # an abstract base: classes that are never made themselves do not count
                miss = [(c, v) for c, v in miss if not project.subclasses(c)]
                if not miss:
                    continue
            if g is None:
                g = guarded(f)
            if id(n) in g:
                continue
            c, v = miss[0]
            what = {"dict": "entry", "rec": "field", "df": "column"}[v.kind]
            res.add("unset-" + what, where(f), f"{ast.unparse(n.value)}[{n.slice.value!r}]",
                    f"{'reads' if isinstance(n.ctx, ast.Load) else 'assigns to'} {what} {n.slice.value!r} of {ast.unparse(n.value)}" + (f" (for {c.name})" if c is not None and c is not f.cls else "") +
                    f", which nothing puts there; it has {', '.join(map(str, sorted(map(str, v.keys))[:14]))}", n.lineno)
    res.guard("entries_read", 100)
    return res


def check_slicer_plots(project, tier):
    """each slicer puts into slice_points what its own default plots (and its own methods) read from there"""
    res = Result()
    an = Analyzer(project)
    base = next(iter(project.class_named("BaseSlicer")), None)
    if base is None:
        res.guard("slicers", 1)
        return res
    for c in project.subclasses(base, include=False):
        fam = project.mro(c)
        put = set()
        for k in fam:
            for n in ast.walk(k.node):
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Attribute) and n.value.attr == "slice_points" and isinstance(n.slice, ast.Constant):
                    put.add(n.slice.value)
                elif isinstance(n, ast.Dict) or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "dict":
                    pass
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == "slice_points" for t in n.targets):
                    v = an.ev(n.value, next(iter(k.methods.values())), k) if k.methods else UNKNOWN
                    if v is not UNKNOWN and v.kind == "dict":
                        put |= set(v.keys)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "update" and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == "slice_points":
                    for a in n.args:
                        if isinstance(a, ast.Dict):
                            put |= {x.value for x in a.keys if isinstance(x, ast.Constant)}
                    put |= {x.arg for x in n.keywords if x.arg}
        plots = {}
        for k in fam:
            found = False
            for m in k.methods.values():
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == "plot_funcs" for t in n.targets):
                        found = True
                        for x in ast.walk(n.value):
                            if isinstance(x, ast.Name):
                                r = project.resolve(m.module, x.id)
                                if r is not None and r[0] == "class":
                                    plots[r[1].name] = r[1]
            if found:
                break
        if not plots and not put:
            continue
        res.count("slicers")
        for name, pc in plots.items():
            for k in project.mro(pc):
                for m in k.methods.values():
                    if project.find_method(pc, m.name) is not m or "slicer" not in m.params():
                        continue
                    gd = guarded(m)
                    for n in ast.walk(m.node):
                        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str) and isinstance(n.value, ast.Attribute) \
                                and n.value.attr == "slice_points" and isinstance(n.value.value, ast.Name) and n.value.value.id == "slicer":
                            res.count("slice_point_reads_in_plots")
                            if n.slice.value not in put and id(n) not in gd:
                                res.add("slicer-lacks-plotted-key", f"{c.relpath}:{c.name}", f"{name}:{n.slice.value}",
                                        f"{name}, a default plot of {c.name}, reads slice_points[{n.slice.value!r}], which {c.name} never sets (it sets {', '.join(sorted(put))})", n.lineno)
        for k in fam:
            for m in k.methods.values():
                if project.find_method(c, m.name) is not m and m.name != "__init__" or not m.params():
                    continue
                gd = guarded(m)
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str) and isinstance(n.value, ast.Attribute) \
                            and n.value.attr == "slice_points" and isinstance(n.value.value, ast.Name) and n.value.value.id == m.params()[0]:
                        res.count("slice_point_reads_in_slicers")
                        if n.slice.value not in put and id(n) not in gd and not by_slicer_name(m, n):
                            res.add("slicer-lacks-key", f"{c.relpath}:{c.name}", f"{m.name}:{n.slice.value}",
                                    f"{m.qualname} reads slice_points[{n.slice.value!r}], which {c.name} never sets (it sets {', '.join(sorted(put))})", n.lineno)
    res.guard("slice_point_reads_in_plots", 5)
    return res


def by_slicer_name(m, node):
    """inside a branch chosen by the slicer's own name or attributes"""
    for n in ast.walk(m.node):
        if isinstance(n, ast.If) and ("slicer_name" in ast.unparse(n.test) or "hasattr" in ast.unparse(n.test)):
            if any(x is node for x in ast.walk(n)):
                return True
    return False


# ------------------------------------------------------------------ what is saved to a file and read back
def strings(node):
    return {n.value for n in ast.walk(node) if isinstance(n, ast.Constant) and isinstance(n.value, str)}


def savez_calls(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and ast.unparse(n.func) in ("np.savez", "np.savez_compressed", "numpy.savez"):
            yield n


def taken_from(g, key):
    """locals of g assigned from an expression that reads the entry key"""
    out = set()
    for n in ast.walk(g.node):
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            if any(isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Constant) and x.slice.value == key for x in ast.walk(n.value)):
                out.add(n.targets[0].id)
    return out


def unpacks(g, key):
    """g calls something with **(the entry key of a file)"""
    loc = taken_from(g, key)
    for n in ast.walk(g.node):
        if isinstance(n, ast.keyword) and n.arg is None:
            if isinstance(n.value, ast.Name) and n.value.id in loc:
                return True
            if any(isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Constant) and x.slice.value == key for x in ast.walk(n.value)):
                return True
    return False


def returned_at(readers, key):
    """positions of the returned tuple that hold the entry key"""
    out = set()
    for g in readers:
        loc = taken_from(g, key)
        for n in ast.walk(g.node):
            if isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple):
                out |= {i for i, e in enumerate(n.value.elts) if any(isinstance(x, ast.Name) and x.id in loc for x in ast.walk(e))}
    return out


def check_saved(project, tier):
    """files the package writes can be read back by the package, and everything saved with them is taken up again"""
    res = Result()
    an = Analyzer(project)
    writers = []
    for m in project.modules.values():
        for n in savez_calls(m.tree):
            if n.keywords and all(k.arg for k in n.keywords):
                writers.append((m, n, {k.arg for k in n.keywords}))
    res.count("saved_files", len(writers))
    for f in an.funcs:
        given = set(f.all_params())
        loads = {}
        parsed = {n.targets[0].id for n in ast.walk(f.node) if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call)
                  and "args" in (n.value.func.attr if isinstance(n.value.func, ast.Attribute) else getattr(n.value.func, "id", ""))}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func) in ("np.load", "numpy.load") and n.value.args:
                a = n.value.args[0]
                if isinstance(a, ast.Name) and a.id in given or isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id in parsed | (given - set(f.params()[:1] if f.cls is not None else ())):
                    loads[n.targets[0].id] = n.lineno
        if not loads:
            continue
        gd = guarded(f)
        for var, line in loads.items():
            need = {n.slice.value for n in ast.walk(f.node) if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == var
                    and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str) and id(n) not in gd}
            if not need:
                continue
            res.count("files_read_back")
            best = max((len(need & w[2]) for w in writers), default=0)
            if not any(need <= w[2] for w in writers):
                near = next((w for w in writers if len(need & w[2]) == best), None) if best else None
                lack = sorted(need - near[2]) if near else sorted(need)
                res.add("saved-file-lacks-entry", where(f), f"{var}: {', '.join(lack)}",
                        f"reads {', '.join(repr(x) for x in lack)} from a saved file, but no file the package saves has all of {', '.join(sorted(need))}" +
                        (f"; the closest, in {near[0].relpath}, has {', '.join(sorted(near[2]))}" if near else ""), line)
    # the same class writes and reads: nothing that is saved may be lost on the way back
    for c in project.all_classes():
        for f in c.methods.values():
            for n in savez_calls(f.node):
                readers = [g for g in c.methods.values() if any(isinstance(x, ast.Call) and ast.unparse(x.func) in ("np.load", "numpy.load") for x in ast.walk(g.node))]
                if not readers:
                    continue
                for g in c.methods.values():        # and methods that only hand on what a reader returns
                    if g not in readers and any(isinstance(x, ast.Return) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and isinstance(x.value.func.value, ast.Name)
                                                and g.params() and x.value.func.value.id == g.params()[0] and x.value.func.attr in {r.name for r in readers} for x in ast.walk(g.node)):
                        readers.append(g)
                reach = reached_in_class(project, c, readers, ("backward",))
                used = set().union(*[strings(g.node) for g in reach])
                for k in n.keywords:
                    if k.arg is None:
                        continue
                    res.count("saved_entries")
                    if k.arg not in used:
                        res.add("saved-entry-never-read", where(f), k.arg, f"{c.name} saves {k.arg!r} but never reads it back", n.lineno)
                    v = an.ev(k.value, f, c)
                    if v is UNKNOWN or v.kind != "dict":
                        continue
                    names = {g.name for g in readers}
                    takers = [g for g in an.funcs if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in names for x in ast.walk(g.node))]
                    if not takers:
                        continue
                    if any(unpacks(g, k.arg) for g in reach):
                        continue        # handed on as a whole
                    seen = set(used).union(*[strings(g.node) for g in takers])
                    for kk in sorted(map(str, v.keys)):
                        res.count("saved_entries")
                        if kk not in seen:
                            res.add("saved-entry-never-read", where(f), f"{k.arg}[{kk!r}]",
                                    f"{c.name} saves {kk!r} in {k.arg!r}, but neither {', '.join(sorted(names))} nor anything that calls it takes it up again", n.lineno)
                    # and what the readers take from it has been saved
                    for g in takers + readers:
                        gd = guarded(g)
                        for x in ast.walk(g.node):
                            if not (isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr in names):
                                continue
                            t = x.targets[0]
                            loc = {e.id for i, e in enumerate(t.elts) if isinstance(e, ast.Name) and i in returned_at(readers, k.arg)} if isinstance(t, ast.Tuple) else set()
                            if not loc:
                                continue
                            for y in ast.walk(g.node):
                                if isinstance(y, ast.Subscript) and isinstance(y.ctx, ast.Load) and isinstance(y.value, ast.Name) and y.value.id in loc and isinstance(y.slice, ast.Constant) and id(y) not in gd:
                                    res.count("saved_entries_taken")
                                    if not has(v.keys, y.slice.value):
                                        res.add("saved-file-lacks-entry", where(g), f"{k.arg}[{y.slice.value!r}]",
                                                f"takes {y.slice.value!r} from the saved {k.arg!r}, which {f.qualname} never puts there (it saves {', '.join(sorted(map(str, v.keys)))})", y.lineno)
    res.guard("saved_entries", 8)
    res.guard("files_read_back", 1)
    return res


# ------------------------------------------------------------------ the settings with which a slicer is rebuilt from its file
# settings that cannot change what the slicer contains: how loudly and how fast it works
NO_EFFECT = {"verbose", "use_cache", "leafsize", "n_threads", "cache_size"}


def init_params(c, project):
    """(names, required names, takes any) of the constructor of c"""
    g = project.find_method(c, "__init__")
    if g is None:
        return set(), set(), False
    a = g.node.args
    pos = [x.arg for x in a.posonlyargs + a.args][1:]
    req = set(pos[:len(pos) - len(a.defaults)] if a.defaults else pos) | {k.arg for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
    return set(pos) | {k.arg for k in a.kwonlyargs}, req, a.kwarg is not None


def check_rebuilt(project, tier):
    """a slicer read from a file is built with the settings of the one that was written"""
    res = Result()
    an = Analyzer(project)
    # attributes from which some method rebuilds an object: X(**saved) where saved is the entry written from self.<attr>
    for base in project.all_classes():
        for f in base.methods.values():
            for call in savez_calls(f.node):
                for k in call.keywords:
                    if k.arg is None or not (isinstance(k.value, ast.Attribute) and isinstance(k.value.value, ast.Name) and f.params() and k.value.value.id == f.params()[0]):
                        continue
                    if not any(unpacks(g, k.arg) for g in base.methods.values()):
                        continue
                    rebuilt_family(project, an, res, base, k.value.attr)
    res.guard("rebuilt_classes", 3)
    res.guard("rebuilt_settings", 10)
    return res


def rebuilt_family(project, an, res, base, attr):
    for c in project.all_classes():
        if base not in project.mro(c):
            continue
        fam = project.mro(c)
        names, req, anyk = init_params(c, project)
        values, owner = None, None
        for k in fam:
            g = k.methods.get("__init__")
            if g is None:
                continue
            for n in walk_own(g.node):
                if isinstance(n, ast.Assign) and any(is_self_attr(t, g, attr) for t in n.targets):
                    v = an.ev(n.value, g, k)
                    if v is UNKNOWN or v.open or v.kind != "dict":
                        values = UNKNOWN
                    else:
                        values = set(v.keys)
                    owner = (g, n)
            if owner:
                break
        if not owner or values is UNKNOWN:
            continue
        res.count("rebuilt_classes")
        lines = {x: owner[1].lineno for x in values}
        for k in fam:
            for g in k.methods.values():
                if project.find_method(c, g.name) is not g and g.name != "__init__":
                    continue
                for n in walk_own(g.node):
                    if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and is_self_attr(n.value, g, attr) and isinstance(n.slice, ast.Constant):
                        values.add(n.slice.value)
                        lines[n.slice.value] = n.lineno
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "update" and is_self_attr(n.func.value, g, attr):
                        v = an.ev(n.args[0], g, c) if n.args else V([x.arg for x in n.keywords if x.arg])
                        if v is not UNKNOWN:
                            values |= set(v.keys)
                            lines.update({x: n.lineno for x in v.keys})
        for x in sorted(values):
            res.count("rebuilt_settings")
            if x not in names and not anyk:
                res.add("saved-setting-not-accepted", f"{c.relpath}:{c.name}", x,
                        f"{c.name} saves the setting {x!r}, which its constructor does not accept: read back from a file it is built with the defaults instead of the saved settings", lines.get(x, c.node.lineno))
        for x, v, g in saved_values(fam, project, c, attr):
            src = sources(v, g)
            if x in names and src and x not in src:
                res.count("rebuilt_settings")
                res.add("other-setting-saved", f"{c.relpath}:{c.name}", x,
                        f"{c.name} saves {ast.unparse(v)} as the setting {x!r}, which comes from {', '.join(sorted(src))}: read back from a file it is built with the wrong value", v.lineno)
        for x in sorted(names - values - NO_EFFECT):
            res.count("rebuilt_settings")
            res.add("setting-not-saved", f"{c.relpath}:{c.name}", x,
                    f"{c.name} takes the setting {x!r}, but does not save it in {attr}: read back from a file it is built with another value", lines.get(x, owner[1].lineno))


def is_self_attr(t, g, attr):
    return isinstance(t, ast.Attribute) and t.attr == attr and isinstance(t.value, ast.Name) and g.params() and t.value.id == g.params()[0]


def saved_values(fam, project, c, attr):
    for k in fam:
        full = False
        g = k.methods.get("__init__")
        if g is None:
            continue
        for n in walk_own(g.node):
            if isinstance(n, ast.Assign) and any(is_self_attr(t, g, attr) for t in n.targets) and isinstance(n.value, ast.Dict):
                full = True
                for kk, v in zip(n.value.keys, n.value.values):
                    if isinstance(kk, ast.Constant):
                        yield kk.value, v, g
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript) and is_self_attr(n.targets[0].value, g, attr) and isinstance(n.targets[0].slice, ast.Constant):
                yield n.targets[0].slice.value, n.value, g
        if full:
            return


def sources(v, g, seen=()):
    """parameters of g from which an expression is made, directly or through attributes and locals set in g"""
    out, params = set(), set(g.all_params()) - {g.params()[0]}
    for n in ast.walk(v):
        if isinstance(n, ast.Name) and n.id in params:
            out.add(n.id)
        key = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == g.params()[0] else None
        if key is None or key in seen or isinstance(n, ast.Name) and key in params:
            continue
        for a in walk_own(g.node):
            if isinstance(a, ast.Assign):
                for t in a.targets:
                    if isinstance(n, ast.Name) and isinstance(t, ast.Name) and t.id == key or isinstance(n, ast.Attribute) and is_self_attr(t, g, key):
                        out |= sources(a.value, g, seen + (key,))
    return out


class SureKeys(PathKeys):
    """entries a returned dictionary has for certain, return by return"""

    def join(self, a, b):
        da, db = dict(a), dict(b)
        out = {}
        for k in da.keys() & db.keys():
            x, y = V.thaw(da[k]), V.thaw(db[k])
            if x.kind == y.kind:
                out[k] = V(x.keys & y.keys, x.open or y.open, x.user or y.user, x.kind).frozen()
        return tuple(sorted(out.items()))


def check_reduce(project, tier):
    """what the reduce functions of a metric read is in every value the metric returns, and the tables that list them list all of them"""
    res = Result()
    an = Analyzer(project)
    base = next(iter(project.class_named("BaseMetric")), None)
    if base is None:
        res.guard("reduce_functions", 1)
        return res
    for c in sorted(project.subclasses(base), key=lambda c: c.name):
        run = project.find_method(c, "run")
        reds = {}
        for k in reversed(project.mro(c)):
            for nm, g in k.methods.items():
                if nm.startswith("reduce") and not g.is_property:
                    reds[nm] = g
        reduce_tables(project, res, c, reds)
        if not reds:
            continue
        if run is None or run.is_generator:
            continue
        w = SureKeys(an, run, c)
        w.run((), {})
        got = [v for v in w.returned if v is not UNKNOWN and v.kind == "dict" and not v.open and not v.user]
        for nm, g in sorted(reds.items()):
            ps = g.params()[0 if g.is_static else 1:]
            if not ps:
                continue
            res.count("reduce_functions")
            for k, _ in sorted(needs(an, g, ps[0]).items()):
                res.count("entries_reduced", len(got))
                for v in got:
                    if not has(v.keys, k):
                        res.add("unset-reduced-entry", where(g), f"{c.name}: {ps[0]}[{k!r}]",
                                f"reads entry {k!r} of the metric value, which {run.qualname} does not put there on every path; certain are {', '.join(sorted(map(str, v.keys))) or 'none'}", g.node.lineno)
                        break
    res.guard("reduce_functions", 60)
    return res


def reduce_tables(project, res, c, reds):
    """self.reduce_order / self.reduce_funcs written out anew once the base class has filled them"""
    names = {nm.replace("reduce_", "", 1) for nm in reds}
    init = c.methods.get("__init__")
    if init is None:
        return
    made_names(res, c, init, names)
    if not reds:
        return
    made = False
    for st in init.node.body:
        for n in ast.walk(st):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "__init__":
                made = True
        if not isinstance(st, ast.Assign) or not any(is_self(t, init, a) for t in st.targets for a in ("reduce_order", "reduce_funcs")):
            continue
        if not isinstance(st.value, ast.Dict) or not all(isinstance(k, ast.Constant) for k in st.value.keys):
            continue
        res.count("reduce_tables")
        keys = {k.value for k in st.value.keys}
        computed = any(isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Attribute) and n.value.attr == st.targets[0].attr and not isinstance(n.slice, ast.Constant) for n in ast.walk(init.node))
        later = {n.slice.value for n in ast.walk(init.node) if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.slice, ast.Constant) and isinstance(n.value, ast.Attribute) and n.value.attr == st.targets[0].attr}
        attr = st.targets[0].attr
        if (keys | later) - names:
            res.add("reduce-table-key", where(init), f"{attr} = {{...}}", f"lists {', '.join(sorted((keys | later) - names))}, but the reduce functions of {c.name} are called {', '.join(sorted(names))}", st.lineno)
        if made and not computed and names - keys - later:
            res.add("reduce-table-missing", where(init), f"{attr} = {{...}}", f"replaces the table of {c.name}'s reduce functions by one without {', '.join(sorted(names - keys - later))}, which is looked up when that function is applied", st.lineno)


def replaced(e, f):
    """pattern of a computed name with constant replacements made in it"""
    if isinstance(e, ast.Name):
        vs = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
        return replaced(vs[0], f) if len(vs) == 1 else "*"
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("replace", "removeprefix") and all(isinstance(a, ast.Constant) for a in e.args) and not e.keywords:
        p = replaced(e.func.value, f)
        return getattr(p, e.func.attr)(*(a.value for a in e.args))
    return pattern(e)


def made_names(res, c, init, names):
    """reduce functions made and listed under computed names"""
    made = {replaced(n.args[1], init) for n in ast.walk(init.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3}
    made = {p.replace("reduce_", "", 1) for p in made if p.startswith("reduce")}
    if not made:
        return
    for n in ast.walk(init.node):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and (is_self(n.value, init, "reduce_order") or is_self(n.value, init, "reduce_funcs")):
            p = replaced(n.slice, init)
            if p == "*" or p is None:
                continue
            res.count("computed_reduce_names")
            if p not in made and p not in names:
                res.add("reduce-table-key", where(init), f"{ast.unparse(n.value)}[{ast.unparse(n.slice)}]", f"lists {p}, but the reduce functions of {c.name} are called {', '.join(sorted(names | made))}", n.lineno)


def is_self(t, g, attr):
    return isinstance(t, ast.Attribute) and t.attr == attr and isinstance(t.value, ast.Name) and g.params()[:1] == [t.value.id]


def literal_kind(v):
    if isinstance(v, (ast.Dict, ast.DictComp)):
        return "dictionary"
    if isinstance(v, (ast.List, ast.ListComp)):
        return "list"
    if isinstance(v, ast.Tuple):
        return "tuple"
    if isinstance(v, ast.Constant):
        return "number" if type(v.value) in (int, float) else type(v.value).__name__
    return None


def check_tables(project, tier):
    """the entries of one literal table are all of one kind, so that whichever entry is looked up can be used alike"""
    res = Result()
    for m in project.modules.values():
        for top in [m.tree] + [n for n in ast.walk(m.tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef))]:
            groups = {}
            body = [top.body]
            while body:
                for st in body.pop():
                    if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                        continue
                    for b in ("body", "orelse", "finalbody"):
                        if getattr(st, b, None):
                            body.append(getattr(st, b))
                    if not isinstance(st, (ast.Assign, ast.AnnAssign, ast.Return, ast.Expr)):
                        continue
                    if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Subscript) \
                            and isinstance(st.targets[0].slice, ast.Constant) and isinstance(st.targets[0].slice.value, str):
                        groups.setdefault(ast.unparse(st.targets[0].value), []).append((st.targets[0].slice.value, st.value))
                    for d in ast.walk(st):
                        if isinstance(d, ast.Dict) and all(isinstance(k, ast.Constant) for k in d.keys):
                            names = ast.unparse(st.targets[0]) if isinstance(st, ast.Assign) else "{...}"
                            if isinstance(st, ast.Assign) and d is st.value:
                                groups.setdefault(names, []).extend((k.value, v) for k, v in zip(d.keys, d.values))
                            else:
                                groups[f"{names} at {d.lineno}:{d.col_offset}"] = [(k.value, v) for k, v in zip(d.keys, d.values)]
            for name, ents in groups.items():
                if len(ents) < 4:
                    continue
                res.count("literal_tables")
                kinds = [literal_kind(v) for _, v in ents]
                main = max(set(kinds), key=kinds.count)
                odd = [i for i, k in enumerate(kinds) if k != main]
                if main is None or not odd or len(odd) > len(ents) // 4:
                    continue
                for i in odd:
                    v = ents[i][1]
                    single = isinstance(v, ast.Tuple) and len(v.elts) == 1 and literal_kind(v.elts[0]) == main
                    if single or main == "dictionary" and kinds[i] is not None and kinds[i] != "NoneType" and len(ents) >= 6:
                        res.add("table-entry-kind", f"{m.relpath}:{getattr(top, 'name', '<module>')}", f"{name.split(' at ')[0]}[{ents[i][0]!r}]",
                                f"this entry of the table is a {kinds[i]}, while the others are each a {main}: code that looks entries up cannot use it like the rest", v.lineno)
    return res
