"""What a caller hands in stays as it was: in-place changes are followed back, through names, views, attributes and calls, to arguments."""
import ast
import re

from ..core import Result, where
from ..flow import expr_key
from ..project import walk_own
from .linking import call_target, local_names, shadowed

MUT = {"append", "extend", "insert", "update", "setdefault", "pop", "popitem", "clear", "remove", "reverse", "add", "discard", "fill", "put", "itemset",
       "resize", "sort", "partition", "byteswap", "setflags", "setfield", "difference_update", "intersection_update", "symmetric_difference_update", "set_over", "set_under", "set_bad", "set_extremes", "__setitem__", "__delitem__"}
# methods that change a data frame when asked to
INPLACE = {"drop", "rename", "sort_values", "sort_index", "reset_index", "set_index", "fillna", "dropna", "drop_duplicates", "replace", "query", "eval", "clip",
           "interpolate", "where", "mask", "ffill", "bfill", "rename_axis", "set_axis"}
# results that share the data of the object they are asked of
VIEW_ATTR = {"T", "values", "loc", "iloc", "at", "iat", "flat", "real", "imag", "data", "mask", "columns", "index", "base", "array"}
VIEW_M = {"view", "reshape", "ravel", "squeeze", "transpose", "swapaxes", "items", "values", "get", "keys", "to_records_view", "iterrows", "itertuples", "__getitem__", "diagonal"}
ELEM_M = {"get", "pop", "setdefault", "popitem", "__getitem__"}
VIEW_F = {"asarray", "asanyarray", "atleast_1d", "atleast_2d", "atleast_3d", "ravel", "reshape", "squeeze", "transpose", "broadcast_to", "swapaxes", "moveaxis", "ascontiguousarray",
          "expand_dims", "split", "array_split", "flipud", "fliplr", "flip", "rot90", "diagonal", "nditer", "getdata", "getmaskarray_"}
SHALLOW = {"list", "dict", "set", "tuple", "sorted", "reversed", "enumerate", "zip", "filter", "OrderedDict", "iter", "chain"}
FIRST_ARG_MUT = {"np.put", "np.copyto", "np.place", "np.putmask", "np.random.shuffle", "random.shuffle", "np.fill_diagonal", "np.add.at", "np.subtract.at", "np.multiply.at",
                 "np.maximum.at", "np.minimum.at", "heapq.heappush", "heapq.heapify", "heapq.heappop", "bisect.insort", "setattr_", "np.ndarray.sort", "list.sort"}
LIB_SETTINGS = {"environ", "rcParams", "path", "modules", "argv", "stdout", "stderr"}
ARRAYISH = re.compile(r"array|DataFrame|Series|\blist\b|List|rec|matrix|\bdict\b|Dict|table", re.I)


class V:
    """own: the caller's objects this may be; inner: what it may hold; keys: what it holds under known keys or positions"""
    __slots__ = ("own", "inner", "keys")

    def __init__(self, own=frozenset(), inner=None, keys=None):
        self.own, self.inner, self.keys = own, inner, keys

    def __eq__(self, o):
        return isinstance(o, V) and self.own == o.own and self.inner == o.inner and self.keys == o.keys

    def empty(self):
        return not self.own and (self.inner is None or self.inner.empty()) and not any(not v.empty() for v in (self.keys or {}).values())

    def join(self, o):
        if self is o or self == o:
            return self
        inner = self.inner if o.inner is None else o.inner if self.inner is None else self.inner.join(o.inner)
        keys = None
        if self.keys or o.keys:
            ks = set(self.keys or {}) | set(o.keys or {})
            keys = {k: self.under(k).join(o.under(k)) for k in ks}
        elif self.keys is not None and o.keys is not None:
            keys = {}
        return V(self.own | o.own, inner, keys).limit()

    def under(self, k):
        """what it holds under this key"""
        if self.keys and k in self.keys:
            return self.keys[k]
        w = V(frozenset((r, 1) for r, _ in self.own))
        return w.join(self.inner) if self.inner is not None else w

    def limit(self, depth=4):
        if depth == 0:
            return V(self.own | self.flat())
        inner = self.inner.limit(depth - 1) if self.inner is not None else None
        keys = {k: v.limit(depth - 1) for k, v in self.keys.items()} if self.keys else self.keys
        return V(self.own, inner, keys)

    def flat(self):
        out = self.own
        if self.inner is not None:
            out |= self.inner.flat()
        for v in (self.keys or {}).values():
            out |= v.flat()
        return out

    def any_inner(self):
        v = self.inner
        for x in (self.keys or {}).values():
            v = x if v is None else v.join(x)
        return v


FRESH = V()


def part(v, key=None):
    """something inside the object"""
    if key is not None and v.keys is not None and key in v.keys:
        return v.keys[key]
    w = V(frozenset((r, 1) for r, _ in v.own))
    x = v.any_inner()
    return w.join(x) if x is not None else w


def holder(vals, keys=None):
    """a new container of these"""
    if keys is not None and None not in keys:
        return V(frozenset(), None, dict(zip(keys, vals))).limit()
    inner = None
    for v in vals:
        inner = v if inner is None else inner.join(v)
    return V(frozenset(), inner).limit()


def shallow(v):
    """a new container with the same contents"""
    p = V(frozenset((r, 1) for r, _ in v.own))
    inner = v.inner.join(p) if v.inner is not None else p
    return V(frozenset(), inner, v.keys)


def constkey(s):
    if isinstance(s, ast.Constant) and isinstance(s.value, (str, int)):
        return s.value
    if isinstance(s, (ast.Name, ast.JoinedStr, ast.Attribute)):
        return "<" + expr_key(s) + ">"
    return None


def doc_types(f):
    """declared types of the parameters, from annotations and numpydoc sections"""
    out = {}
    docs = [ast.get_docstring(f.node) or ""]
    if f.cls is not None and f.name == "__init__":
        docs.append(ast.get_docstring(f.cls.node) or "")
    for d in docs:
        for mt in re.finditer(r"^\s*([\w, ]+?)\s*:\s*(.+)$", d, re.M):
            for p in mt.group(1).split(","):
                out.setdefault(p.strip(), mt.group(2))
    a = f.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.annotation is not None and (x.arg not in out or ast.unparse(x.annotation).strip("'\"") not in ("object", "Any", "typing.Any")):
            out[x.arg] = ast.unparse(x.annotation)
    return out


def is_container(n):
    return isinstance(n, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) \
        or isinstance(n, ast.Call) and expr_key(n.func) in ("list", "dict", "set", "OrderedDict", "defaultdict", "collections.OrderedDict", "np.array", "np.zeros", "np.ones", "pd.DataFrame")


class Alias:
    """one function: which objects, reachable from its arguments or attributes, it changes in place"""

    def __init__(self, an, f):
        self.an, self.f, self.project = an, f, an.project
        self.node = f.node
        self.params = f.all_params()
        a = self.node.args
        self.stars = {x.arg for x in (a.vararg, a.kwarg) if x}
        self.me = f.params()[0] if f.cls is not None and not f.is_static and f.params() else None
        self.mut = {}      # root -> [(level, node, how)]
        self.ret = FRESH
        self.stores = {}   # attr -> [(V, node)]
        self.types = doc_types(f)
        if f.cls is not None and f.name.startswith("_") and not f.name.startswith("__"):
            # a helper's arguments are what the methods of its class document under that name
            for g in f.cls.methods.values():
                if g is not f and any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == f.name for n in ast.walk(g.node)):
                    for p, ty in doc_types(g).items():
                        self.types.setdefault(p, ty)
        self.loopdepth = 0
        self.locals = local_names(self.node) - {g for x in walk_own(self.node) if isinstance(x, ast.Global) for g in x.names}

    # --- running
    def run(self):
        env = {}
        for p in self.params:
            if p == self.me:
                continue
            if p in self.stars:
                env[p] = V(frozenset(), V(frozenset({(p, 1)})))
            else:
                env[p] = V(frozenset({(p, 0)}))
        body = self.node.body if isinstance(self.node.body, list) else []
        self.block(body, env)
        return self

    def block(self, body, env):
        for st in body:
            if env is None:
                return None
            env = self.stmt(st, env)
        return env

    @staticmethod
    def merge(a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = {k: v for k, v in a.items() if k[0] != "!" or b.get(k) == v}
        for k, v in b.items():
            if k[0] == "!":
                continue
            out[k] = out[k].join(v) if k in out else v
        return out

    def stmt(self, st, env):
        t = type(st)
        if t is ast.Assign:
            v = self.ev(st.value, env)
            for tg in st.targets:
                env = self.bind(tg, v, env, st.value)
            return env
        if t is ast.AnnAssign:
            return self.bind(st.target, self.ev(st.value, env), env, st.value) if st.value is not None else env
        if t is ast.AugAssign:
            v = self.ev(st.value, env)
            tg = st.target
            if isinstance(tg, ast.Subscript):
                self.mutate(self.ev(tg.value, env), tg, f"{short(tg)} {op(st.op)}= ...")
            elif isinstance(tg, (ast.Name, ast.Attribute)):
                cur = self.ev(tg, env)
                if isinstance(tg, ast.Attribute) and not (isinstance(tg.value, ast.Name) and tg.value.id == self.me):
                    return env
                self.mutate(cur, tg, f"{short(tg)} {op(st.op)}= ...",
                            # (only what is changed in place takes a list)
                            aug=not (isinstance(st.op, ast.Add) and (isinstance(st.value, (ast.List, ast.ListComp)) or isinstance(st.value, ast.Call) and expr_key(st.value.func) == "list")))
                if isinstance(tg, ast.Name) and isinstance(st.op, ast.Add) and not v.empty():
                    env = dict(env)
                    env[tg.id] = cur.join(shallow(v))
            return env
        if t in (ast.Expr,):
            self.ev(st.value, env)
            return env
        if t is ast.Return:
            if st.value is not None:
                self.ret = self.ret.join(self.ev(st.value, env))
            return None
        if t is ast.Raise:
            return None
        if t is ast.If:
            self.ev(st.test, env)
            a, b = self.narrow(st.test, env)
            a = self.block(st.body, a)
            b = self.block(st.orelse, b)
            return self.merge(a, b)
        if t in (ast.For, ast.AsyncFor):
            v = self.ev(st.iter, env)
            cur = env
            for _ in range(3):
                e = self.bind(st.target, self.iterpart(st.iter, v, cur), cur, None)
                e = self.block(st.body, e)
                new = self.merge(cur, e)
                if new == cur:
                    break
                cur = new
            if st.orelse:
                cur = self.merge(cur, self.block(st.orelse, cur))
            return cur
        if t is ast.While:
            cur = env
            for _ in range(3):
                self.ev(st.test, cur)
                new = self.merge(cur, self.block(st.body, cur))
                if new == cur:
                    break
                cur = new
            return cur
        if t in (ast.With, ast.AsyncWith):
            for it in st.items:
                v = self.ev(it.context_expr, env)
                if it.optional_vars is not None:
                    env = self.bind(it.optional_vars, v, env, None)
            return self.block(st.body, env)
        if t is ast.Try or t.__name__ == "TryStar":
            a = self.block(st.body, env)
            h = self.merge(env, a)
            outs = self.block(st.orelse, a) if a is not None else None
            for x in st.handlers:
                outs = self.merge(outs, self.block(x.body, h))
            if st.finalbody:
                r = self.block(st.finalbody, outs if outs is not None else h)
                return r if outs is not None else None
            return outs
        if t is ast.Delete:
            for tg in st.targets:
                if isinstance(tg, ast.Subscript):
                    self.mutate(self.ev(tg.value, env), tg, f"del {short(tg)}")
            return env
        if t in (ast.Break, ast.Continue):
            # keep what the loop body did: approximated by the loop's own join
            self.an.loose = True
            return env
        if t in (ast.FunctionDef, ast.AsyncFunctionDef):
            return env
        if t.__name__ == "Match":
            self.ev(st.subject, env)
            out = env
            for c in st.cases:
                out = self.merge(out, self.block(c.body, env))
            return out
        return env

    def narrow(self, test, env):
        """x is None: on that side x is nothing of the caller's"""
        neg = False
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test, neg = test.operand, not neg
        a, b = env, env
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) \
                and isinstance(test.left, ast.Name) and isinstance(test.comparators[0], ast.Constant):
            e = dict(env)
            e[test.left.id] = FRESH
            if isinstance(test.ops[0], (ast.Is, ast.Eq)):
                a = e
            else:
                b = e
        elif isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" and len(test.args) == 2 and isinstance(test.args[0], ast.Name):
            ty = {x.id if isinstance(x, ast.Name) else getattr(x, "attr", "") for x in ast.walk(test.args[1]) if isinstance(x, (ast.Name, ast.Attribute))}
            if ty and ty <= {"str", "int", "float", "bool", "tuple", "bytes", "number", "Number"}:
                a = dict(env)
                a[test.args[0].id] = FRESH
            x = test.args[0].id
            if env.get(x) == V(frozenset({(x, 0)})) and x in self.types:
                # none of the documented types is left
                gone = env.get("!" + x, frozenset()) | ty
                b = dict(env)
                b["!" + x] = gone
                doc = set(re.findall(r"[A-Za-z_]\w+", re.sub(r"\b(optional|or|of|np|pd|numpy|pandas|the|None|default|N)\b|\(.*?\)|\[.*?\]", " ", self.types[x])))
                if doc and doc <= gone:
                    b[x] = FRESH
        return (b, a) if neg else (a, b)

    # --- binding
    def bind(self, tg, v, env, value):
        if isinstance(tg, ast.Name):
            env = dict(env)
            env[tg.id] = v
            return env
        if isinstance(tg, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(tg.elts):
                vs = [self.ev(e, env) for e in value.elts]
                for x, w, e in zip(tg.elts, vs, value.elts):
                    env = self.bind(x, w, env, e)
                return env
            for i, x in enumerate(tg.elts):
                env = self.bind(x.value if isinstance(x, ast.Starred) else x, part(v, i if not any(isinstance(y, ast.Starred) for y in tg.elts) else None), env, None)
            return env
        if isinstance(tg, ast.Subscript):
            base = self.ev(tg.value, env)
            self.mutate(base, tg, f"{short(tg)} = ...")
            r = tg.value
            if isinstance(r, ast.Name) and r.id in env:
                env = dict(env)
                k = constkey(tg.slice)
                if k is not None and isinstance(base, V):
                    keys = dict(base.keys or {})
                    keys[k] = v if self.loopdepth == 0 or k not in keys else v.join(keys[k])
                    env[r.id] = V(base.own, base.inner, keys).limit()
                elif not v.empty():
                    env[r.id] = base.join(holder([v]))
            return env
        if isinstance(tg, ast.Attribute):
            if isinstance(tg.value, ast.Name) and tg.value.id == self.me:
                self.stores.setdefault(tg.attr, []).append((v, tg))
                env = dict(env)
                env["self." + tg.attr] = v
            elif tg.attr in ("columns", "index", "shape", "mask", "dtype"):
                self.mutate(self.ev(tg.value, env), tg, f"{short(tg)} = ...")
        return env

    # --- changes
    def mutate(self, v, node, how, aug=False, lvl=None):
        for r, l in v.own:
            if aug and not self.evidence(r):
                continue
            self.mut.setdefault(r, []).append((l, node, how))

    def evidence(self, r):
        """is the argument known to be something changed in place by += (array, list, ...), not a number or a string?"""
        if r.startswith("self."):
            return self.an.attr_is_container(self.f.cls, r[5:])
        t = self.types.get(r)
        # (what it holds, as in `list` of `str`, says nothing about it)
        t = re.sub(r"\bof\b.*|\[.*|\(.*", "", t or "")
        return bool(t and ARRAYISH.search(t)) and not re.search(r"\bfloat\b|\bint\b|\bstr\b", t)

    # --- expressions
    def ev(self, n, env):
        if n is None or isinstance(n, ast.Constant):
            return FRESH
        if isinstance(n, ast.Name):
            v = env.get(n.id)
            return self.outer(n) if v is None else v
        if isinstance(n, ast.Attribute):
            if isinstance(n.value, ast.Name) and n.value.id == self.me:
                k = "self." + n.attr
                return env[k] if k in env else V(frozenset({(k, 0)}))
            if isinstance(n.value, ast.Name) and n.value.id not in env and n.value.id in self.f.module.imports and not shadowed(self.f.module, n.value):
                r = self.project.dotted(self.f.module, n)
                if r is None and self.f.module.imports[n.value.id][0] == "mod" and n.attr not in LIB_SETTINGS:
                    return V(frozenset({(f"library {n.value.id}.{n.attr}", 0)}))
                return FRESH
            if isinstance(n.value, ast.Name) and n.value.id in self.f.module.classes and n.value.id not in env and n.attr in self.f.module.classes[n.value.id].attrs:
                return V(frozenset({(f"class {n.value.id}.{n.attr}", 0)}))
            b = self.ev(n.value, env)
            if n.attr in VIEW_ATTR:
                return b
            return FRESH
        if isinstance(n, ast.Subscript):
            b = self.ev(n.value, env)
            self.ev(n.slice, env)
            k = constkey(n.slice)
            if k is not None and b.keys and k in b.keys:
                return b.keys[k]
            if isinstance(n.slice, ast.Slice):
                # part of an array is a view of it; of a list a new list
                return b if not b.own else V(b.own, b.inner)
            k = self.indexkind(n.slice, env)
            if k == "copy":
                return V(frozenset(), b.any_inner()) if not b.own else FRESH
            return part(b)
        if isinstance(n, ast.Call):
            return self.call(n, env)
        if isinstance(n, ast.BoolOp):
            vs = [self.ev(x, env) for x in n.values]
            out = vs[0]
            for v in vs[1:]:
                out = out.join(v)
            return out
        if isinstance(n, ast.IfExp):
            self.ev(n.test, env)
            a, b = self.narrow(n.test, env)
            return self.ev(n.body, a).join(self.ev(n.orelse, b))
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)):
            vs = [shallow(self.ev(e.value, env)).any_inner() or FRESH if isinstance(e, ast.Starred) else self.ev(e, env) for e in n.elts]
            return holder(vs, None if any(isinstance(e, ast.Starred) for e in n.elts) else list(range(len(vs))))
        if isinstance(n, ast.Dict):
            vs = []
            for k, v in zip(n.keys, n.values):
                x = self.ev(v, env)
                vs.append(part(x) if k is None else x)
            return holder(vs, [constkey(k) if k is not None else None for k in n.keys])
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            e = env
            for g in n.generators:
                v = self.ev(g.iter, e)
                e = self.bind(g.target, self.iterpart(g.iter, v, e), e, None)
                for c in g.ifs:
                    self.ev(c, e)
            if isinstance(n, ast.DictComp):
                self.ev(n.key, e)
                return holder([self.ev(n.value, e)])
            return holder([self.ev(n.elt, e)])
        if isinstance(n, ast.NamedExpr):
            return self.ev(n.value, env)
        if isinstance(n, ast.Starred):
            return self.ev(n.value, env)
        if isinstance(n, ast.Lambda):
            return FRESH
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return FRESH

    def outer(self, n):
        """a container that belongs to a module"""
        if n.id in self.locals or n.id not in self.f.module.assigns and n.id not in self.f.module.imports:
            return FRESH
        m = self.f.module
        if n.id in m.imports:
            i = m.imports[n.id]
            if i[0] != "from" or i[1] not in self.project.modules:
                return FRESH
            m = self.project.modules[i[1]]
            name = i[2]
        else:
            name = n.id
        vals = m.assigns.get(name, [])
        if len(vals) == 1 and is_container(vals[0]):
            return V(frozenset({(f"global {m.name}.{name}", 0)}))
        return FRESH

    def iterpart(self, it, v, env):
        return part(v)

    def indexkind(self, s, env):
        """does indexing with this give (part of) the same data, or a copy?"""
        if isinstance(s, ast.Constant):
            return "part"
        if isinstance(s, ast.Slice):
            return "part"
        if isinstance(s, (ast.JoinedStr,)):
            return "part"
        if isinstance(s, (ast.Attribute,)):
            return "part" if re.search(r"col|name|key|filter", s.attr, re.I) else "copy"
        if isinstance(s, ast.Name):
            return "part" if re.search(r"^(i|j|k|n|key|name|col|c|d|idx|f|filt\w*|band|item|plot\w*)$|_col$|_name$|col$|name$", s.id) else "copy"
        if isinstance(s, ast.Tuple):
            return "part" if all(self.indexkind(e, env) == "part" for e in s.elts) else "copy"
        if isinstance(s, ast.UnaryOp) and isinstance(s.op, ast.USub):
            return "part"
        return "copy"

    def call(self, n, env):
        fn = n.func
        args = [(self.ev(a.value if isinstance(a, ast.Starred) else a, env), a) for a in n.args]
        kws = [(k.arg, self.ev(k.value, env), k.value) for k in n.keywords]
        name = expr_key(fn)
        # asked to write into an array
        for k, v, a in kws:
            if k == "out":
                self.mutate(v, n, f"{short(fn)}(out={short(a)})")
        if name in FIRST_ARG_MUT and args:
            self.mutate(args[0][0], n, f"{name}({short(n.args[0])})")
            return FRESH
        if name in ("copy.deepcopy", "deepcopy"):
            return FRESH
        if name in ("copy.copy",) and args:
            return shallow(args[0][0])
        t = call_target(self.project, self.f, n)
        if t is None and isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == self.me and self.f.cls is not None:
            g = self.project.find_method(self.f.cls, fn.attr)
            if g is not None and not g.is_property:
                t = (g, not g.is_static)
        if t is not None:
            return self.project_call(n, t, args, kws, env)
        if isinstance(fn, ast.Attribute):
            if fn.attr in VIEW_F and isinstance(fn.value, ast.Name) and fn.value.id in ("np", "numpy", "ma"):
                return args[0][0] if args else FRESH
            if fn.attr == "array" and name in ("np.array", "numpy.array") and args:
                c = [a for k, _, a in kws if k == "copy"]
                if c and isinstance(c[0], ast.Constant) and c[0].value is False:
                    return args[0][0]
                return FRESH
            if isinstance(fn.value, ast.Name) and fn.value.id in self.f.module.imports and fn.value.id not in env:
                return FRESH
            b = self.ev(fn.value, env)
            if fn.attr in MUT and not (fn.attr in ("update", "add", "put", "sort", "pop", "remove", "clear", "resize") and self.is_object(fn.value, env)):
                self.mutate(b, n, f"{short(fn)}(...)")
                if fn.attr in ("append", "extend", "insert", "update", "add", "setdefault") and isinstance(fn.value, ast.Name) and fn.value.id in env:
                    new = b
                    for v, _ in args:
                        new = new.join(holder([v]) if fn.attr not in ("extend", "update") else shallow(v))
                    env[fn.value.id] = new
                return part(b) if fn.attr in ELEM_M else FRESH
            if fn.attr in INPLACE:
                c = [a for k, _, a in kws if k == "inplace"]
                if c and isinstance(c[0], ast.Constant) and c[0].value is True:
                    self.mutate(b, n, f"{short(fn)}(inplace=True)")
                return FRESH
            if fn.attr in ELEM_M or fn.attr in ("items", "values", "iterrows"):
                if fn.attr == "items":
                    return V(frozenset(), V(frozenset(), None, {0: FRESH, 1: part(b)}))
                if fn.attr == "iterrows":
                    return FRESH
                return part(b, constkey(n.args[0]) if n.args else None) if fn.attr in ELEM_M else V(b.own, b.any_inner())
            if fn.attr in VIEW_M:
                return b
            if fn.attr == "copy" and not args and not any(k == "deep" for k, _, _ in kws):
                # (a shallow copy of a dictionary shares what it holds)
                return shallow(b) if self.is_dict(fn.value, b) else FRESH
            if fn.attr == "copy":
                d = [a for k, _, a in kws if k == "deep"]
                return b if d and isinstance(d[0], ast.Constant) and d[0].value is False else FRESH
            if fn.attr == "astype":
                d = [a for k, _, a in kws if k == "copy"]
                return b if d and isinstance(d[0], ast.Constant) and d[0].value is False else FRESH
            return FRESH
        if isinstance(fn, ast.Name):
            if fn.id in SHALLOW and not shadowed(self.f.module, fn):
                if fn.id in ("zip", "enumerate"):
                    els = [part(v) for v, _ in args]
                    els = [FRESH] + els[:1] if fn.id == "enumerate" else els
                    return V(frozenset(), V(frozenset(), None, dict(enumerate(els))))
                out = V()
                for v, _ in args:
                    out = out.join(shallow(v))
                if kws and fn.id == "dict":
                    out = out.join(holder([v if k else part(v) for k, v, _ in kws]))
                return out
            if fn.id in ("next", "max", "min") and args:
                return part(args[0][0])
            if fn.id == "getattr":
                return FRESH
        return FRESH

    def is_object(self, n, env):
        return False

    def is_dict(self, n, b):
        for r, l in b.own:
            if l == 0 and r.startswith("self."):
                if self.an.attr_is_dict(self.f.cls, r[5:]):
                    return True
            elif l == 0 and re.search(r"dict", self.types.get(r, "") + r, re.I):
                return True
        return False

    def project_call(self, n, t, args, kws, env):
        g, bound = t
        s = self.an.summary(g)
        names = [x.arg for x in g.node.args.posonlyargs + g.node.args.args]
        if bound and names:
            names = names[1:]
        amap = {}
        for i, (v, a) in enumerate(args):
            if isinstance(a, ast.Starred):
                break
            if i < len(names):
                amap[names[i]] = v
        for k, v, _ in kws:
            if k in g.all_params():
                amap[k] = v
        for r, hits in s.mut.items():
            lvl = min(h[0] for h in hits)
            if r in amap:
                v = amap[r]
                if lvl == 0:
                    self.mutate(v, n, f"{short(n.func)}({r}=...) [{hits[0][2]}]")
                else:
                    self.mutate(part(v), n, f"{short(n.func)}({r}=...) [{hits[0][2]}]")
            elif r.startswith("self.") and self.me is not None and self.mine(n, g):
                v = env[r] if r in env else V(frozenset({(r, 0)}))
                for rr, l in v.own:
                    self.mut.setdefault(rr, []).append((max(l, lvl), n, hits[0][2]))
        if g.name == "__init__":
            return FRESH
        return self.subst(s.ret, amap, self.mine(n, g))

    def subst(self, v, amap, mine):
        out = V(frozenset(), self.subst(v.inner, amap, mine) if v.inner is not None else None,
                {k: self.subst(x, amap, mine) for k, x in v.keys.items()} if v.keys else None)
        for r, l in v.own:
            if r in amap:
                out = out.join(amap[r] if l == 0 else part(amap[r]))
            elif r.startswith("self.") and mine:
                out = out.join(V(frozenset({(r, l)})))
        return out

    def mine(self, n, g):
        fn = n.func
        return isinstance(fn, ast.Attribute) and (isinstance(fn.value, ast.Name) and fn.value.id == self.me
                                                   or isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super")


def short(n, k=60):
    s = expr_key(n)
    return s if len(s) <= k else s[: k - 3] + "..."


def op(o):
    return {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "BitOr": "|", "BitAnd": "&", "Pow": "**", "Mod": "%", "FloorDiv": "//"}.get(type(o).__name__, "?")


class Summary:
    def __init__(self, mut, ret, stores):
        self.mut, self.ret, self.stores = mut, ret, stores


class Analysis:
    def __init__(self, project):
        self.project = project
        self.memo, self.busy = {}, set()
        self._cont = {}

    def summary(self, f):
        k = id(f.node)
        if k in self.memo:
            return self.memo[k]
        if k in self.busy:
            return Summary({}, FRESH, {})
        self.busy.add(k)
        a = Alias(self, f).run()
        self.busy.discard(k)
        self.memo[k] = Summary(a.mut, a.ret, a.stores)
        return self.memo[k]

    def attr_is_container(self, cls, attr):
        return False

    def attr_is_dict(self, cls, attr):
        return "dict" in attr.lower()


def all_funcs(project):
    for m in project.modules.values():
        for f in m.functions.values():
            yield f
        for c in m.classes.values():
            for f in list(c.methods.values()) + list(c.setters.values()):
                yield f


# functions whose declared purpose is to fill in what they are handed, or that own it by agreement with their only caller
FILLS = {("stars_project", "stars"), ("assign_patches", "stars"), ("GetReference.lim_vals", "lc"), ("read_observations", "colmap"), ("BaseSlicer.read_backwards_compatible", "restored"),
         ("MetricBundleGroup.__init__", "bundle_dict")}


def family(project, c):
    return {k.name for k in project.mro(c) if hasattr(k, "name")} | set(project.ext_bases(c) or ()) if c is not None else set()


def by_design(project, f, p):
    if (f.qualname, p) in FILLS:
        return True
    fam = family(project, f.cls)
    ps = f.params()
    if "BaseStacker" in fam and f.name in ("run", "_run", "_add_stacker_cols") or "BaseMap" in fam and f.name == "run":
        return len(ps) > 1 and p == ps[1]
    # (what metrics do to the visits they are handed is judged by itself)
    return "BaseMetric" in fam and f.name != "__init__"


def public(f):
    names = f.qualname.split(".")
    if any(x.startswith("_") and not (x.startswith("__") and x.endswith("__")) for x in names):
        return False
    return f.module.all is None or names[0] in f.module.all


def check(project, tier):
    res = Result()
    an = Analysis(project)
    attrs, given, shared = {}, {}, {}
    for f in all_funcs(project):
        s = an.summary(f)
        res.count("functions")
        dfl = f.defaults()
        for p in f.all_params():
            res.count("arguments")
        for r, hits in s.mut.items():
            res.count("in_place_changes", len(hits))
            h = hits[0]
            kind = r.split(" ")[0]
            if r.startswith("self."):
                attrs.setdefault((f.cls, r[5:]), []).append((f, h))
            elif kind in ("global", "library", "class") and " " in r:
                if kind == "library" or (r not in CACHES):
                    res.add("shared-object-changed", where(f), r, f"changes {r} in place, for everyone: {h[2]}", h[1].lineno)
            else:
                d = dfl.get(r)
                if d is not None and is_container(d):
                    res.add("default-changed", where(f), r, f"changes the default of its argument {r!r}, which later calls share: {h[2]}", h[1].lineno)
                elif public(f) and not by_design(project, f, r):
                    res.add("argument-changed", where(f), r, f"changes its argument {r!r} in place, so the caller's object is altered: {h[2]}", h[1].lineno)
        for a, l in s.stores.items():
            for v, node in l:
                for r, lvl in v.own:
                    if r.startswith("self.") and lvl == 0:
                        shared.setdefault((f.cls, a), []).append((f, r[5:], node))
                    if not r.startswith("self.") and " " not in r:
                        given.setdefault((f.cls, a), []).append((f, r, node))
    for (c, a), l in attrs.items():
        if c is None:
            continue
        if "default" in a.lower():
            for f, h in l:
                if f.name != "__init__":
                    res.add("defaults-changed", where(f), a, f"changes the defaults {a!r} in place, so the next use starts from other ones: {h[2]}", h[1].lineno)
        for k in project.mro(c) + project.subclasses(c):
            for f, b, node in shared.get((k, a), []):
                if b != a and any(isinstance(n, ast.Attribute) and n.attr == b and isinstance(n.ctx, ast.Load) for x in k.node.body for n in ast.walk(x)):
                    res.add("attributes-share", where(f), f"{a} is {b}", f"{a!r} and {b!r} are one object, which {l[0][0].qualname} changes in place ({l[0][1][2]})", node.lineno)
        for k in project.mro(c) + project.subclasses(c):
            for f, p, node in given.get((k, a), []):
                if f.cls is not None and (public(f) or f.name == "__init__") and (f.qualname, p) not in FILLS:
                    g, h = l[0]
                    res.add("kept-argument-changed", where(f), f"{a} <- {p}",
                            f"keeps its argument {p!r} as {a!r} without copying it, and {g.qualname} changes that in place ({h[2]})", h[1].lineno)
        stored = any(isinstance(n, ast.Attribute) and n.attr == a and isinstance(n.ctx, ast.Store) for k in project.mro(c) if hasattr(k, "node") for n in ast.walk(k.node))
        if not stored:
            for k in project.mro(c):
                if hasattr(k, "attrs") and is_container(k.attrs.get(a)):
                    g, h = l[0]
                    res.add("class-attribute-changed", where(g), a, f"changes {a!r}, which all instances of {k.name} share: {h[2]}", h[1].lineno)
    res.guard("functions", 1200)
    res.guard("in_place_changes", 200)
    return res


# module-level tables that are there to be filled
CACHES = set()
