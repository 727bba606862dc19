"""Abstract interpreter over Python syntax trees (trace-partitioned).

Domain: constants, opaque references (root + access path, alias or owned copy),
abstract strings (literal pieces + holes), finite lists/dicts/objects on an
abstract heap, functions, classes, modules, and "unknown, derived from ...".
Branches on undecidable conditions are followed both ways; loops whose iterable
is statically finite are unrolled, others are run to a 2-step join; calls into
the analysed package are inlined (so that extracting a helper or rewriting a
loop does not change the verdict); calls outside it yield an unknown derived
value.  No analysed code is executed and no solver is involved.
"""
import ast
import builtins
from dataclasses import dataclass, field

from .project import FuncInfo

MAXP = 32          # live partitions per program point
MAXDEPTH = 9       # inlining depth
MAXUNROLL = 80


class Budget(Exception):
    pass


# ---------------------------------------------------------------- values
@dataclass(frozen=True)
class Const:
    v: object

    def __hash__(self):
        try:
            return hash((type(self.v).__name__, self.v))
        except TypeError:
            return hash(type(self.v).__name__)

    def __eq__(self, o):
        if not isinstance(o, Const) or type(o.v) is not type(self.v):
            return False
        return o.v == self.v or (self.v != self.v and o.v != o.v)


@dataclass(frozen=True)
class Str:
    parts: tuple  # of str | value


@dataclass(frozen=True)
class Unk:
    taint: frozenset = frozenset()


@dataclass(frozen=True)
class Ref:
    root: str
    path: tuple = ()
    owned: bool = False

    def key(self):
        return self.root + "".join(self.path)


@dataclass(frozen=True)
class TupV:
    items: tuple


@dataclass(frozen=True)
class Addr:
    n: int


@dataclass(frozen=True)
class FuncV:
    fi: object
    selfv: object = None
    fid: int = 0
    snap: int = 0


@dataclass(frozen=True)
class ClassV:
    ci: object


@dataclass(frozen=True)
class ModV:
    mi: object


@dataclass(frozen=True)
class ExtV:
    name: str


@dataclass(frozen=True)
class MethV:
    """method of a non-project value"""
    base: object
    name: str


@dataclass(frozen=True)
class SuperV:
    after: object
    selfv: object


@dataclass(frozen=True)
class SliceV:
    lo: object
    hi: object
    step: object


@dataclass(frozen=True)
class Union:
    vals: tuple


@dataclass(frozen=True)
class Raise:
    name: str


NONE = Const(None)
UNK = Unk()


# ---------------------------------------------------------------- heap
@dataclass(frozen=True)
class SeqO:
    kind: str
    items: tuple
    exact: bool = True
    must: frozenset = frozenset()

    def may(self):
        return self.items


@dataclass(frozen=True)
class DictO:
    items: tuple  # ((key, value), ...)
    exact: bool = True
    rest: object = None

    def d(self):
        return dict(self.items)


@dataclass(frozen=True)
class ObjO:
    cls: object
    attrs: tuple  # ((name, value), ...)
    root: str = None  # open object: missing attributes are Ref(root, .name)

    def d(self):
        return dict(self.attrs)


class Frame:
    __slots__ = ("env", "fi", "fid", "selfcls", "globals_")

    def __init__(self, env, fi, fid, globals_=frozenset()):
        self.env = env
        self.fi = fi
        self.fid = fid
        self.globals_ = globals_

    def copy(self):
        return Frame(dict(self.env), self.fi, self.fid, self.globals_)


class State:
    __slots__ = ("frames", "heap", "dec", "must", "may", "gcache")

    def __init__(self):
        self.frames = []
        self.heap = {}
        self.dec = {}
        self.must = frozenset()
        self.may = frozenset()
        self.gcache = {}

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap)
        s.dec = dict(self.dec)
        s.must = self.must
        s.may = self.may
        s.gcache = dict(self.gcache)
        return s

    @property
    def env(self):
        return self.frames[-1].env

    @property
    def fi(self):
        return self.frames[-1].fi

    def fact(self, f):
        self.must = self.must | {f}
        self.may = self.may | {f}

    def unfact(self, f):
        self.must = self.must - {f}

    def sig(self):
        return (
            tuple(tuple(sorted(((k, v) for k, v in f.env.items()), key=lambda t: t[0])) for f in self.frames),
        )


def taint_of(v, heap=None, depth=0):
    if isinstance(v, Unk):
        return v.taint
    if isinstance(v, Ref):
        return frozenset([v.key()])
    if isinstance(v, TupV):
        out = frozenset()
        for i in v.items:
            out |= taint_of(i, heap, depth)
        return out
    if isinstance(v, Str):
        out = frozenset()
        for i in v.parts:
            if not isinstance(i, str):
                out |= taint_of(i, heap, depth)
        return out
    if isinstance(v, Union):
        out = frozenset()
        for i in v.vals:
            out |= taint_of(i, heap, depth)
        return out
    if isinstance(v, MethV):
        return taint_of(v.base, heap, depth)
    if isinstance(v, SliceV):
        return taint_of(v.lo, heap, depth) | taint_of(v.hi, heap, depth)
    if isinstance(v, Addr) and heap is not None and depth < 3:
        o = heap.get(v.n)
        out = frozenset()
        if isinstance(o, SeqO):
            for i in o.items:
                out |= taint_of(i, heap, depth + 1)
        elif isinstance(o, DictO):
            for k, i in o.items:
                out |= taint_of(i, heap, depth + 1)
            if o.rest is not None:
                out |= taint_of(o.rest, heap, depth + 1)
        return out
    return frozenset()


def mkunion(vals):
    flat = []
    for v in vals:
        for x in (v.vals if isinstance(v, Union) else (v,)):
            if x not in flat:
                flat.append(x)
    if len(flat) == 1:
        return flat[0]
    # merge unknowns
    unks = [x for x in flat if isinstance(x, Unk)]
    if len(unks) > 1:
        t = frozenset().union(*[u.taint for u in unks])
        flat = [x for x in flat if not isinstance(x, Unk)] + [Unk(t)]
    if len(flat) == 1:
        return flat[0]
    if len(flat) > 8:
        t = frozenset()
        for x in flat:
            t |= taint_of(x)
        return Unk(t)
    return Union(tuple(flat))


def join_heap(a, b):
    if a == b:
        return a
    if isinstance(a, SeqO) and isinstance(b, SeqO):
        if a.exact and b.exact and len(a.items) == len(b.items):
            return SeqO(a.kind, tuple(mkunion([x, y]) for x, y in zip(a.items, b.items)), True)
        am = frozenset(a.items) if a.exact else a.must
        bm = frozenset(b.items) if b.exact else b.must
        items = list(a.items)
        for x in b.items:
            if x not in items:
                items.append(x)
        return SeqO(a.kind, tuple(items), False, am & bm)
    if isinstance(a, DictO) and isinstance(b, DictO):
        da, db = a.d(), b.d()
        out = {}
        same = a.exact and b.exact and set(da) == set(db)
        for k in list(da) + [k for k in db if k not in da]:
            if k in da and k in db:
                out[k] = mkunion([da[k], db[k]])
            else:
                out[k] = da.get(k, db.get(k))
        rest = a.rest if b.rest is None else (b.rest if a.rest is None else mkunion([a.rest, b.rest]))
        return DictO(tuple(out.items()), same, rest)
    if isinstance(a, ObjO) and isinstance(b, ObjO):
        da, db = a.d(), b.d()
        out = {}
        for k in list(da) + [k for k in db if k not in da]:
            if k in da and k in db:
                out[k] = mkunion([da[k], db[k]])
            else:
                out[k] = da.get(k, db.get(k))
        return ObjO(a.cls, tuple(out.items()), a.root or b.root)
    return a


def _kind(o):
    if isinstance(o, SeqO):
        return ("seq", o.kind)
    if isinstance(o, ObjO):
        return ("obj", o.cls)
    return ("dict",)


def align(s, t):
    """Objects allocated on one side only, held in the same variable or attribute on both sides, are the same
    abstract object: rename t's to s's before joining."""
    mp = {}
    taken = set()
    todo = []
    for fa, fb in zip(s.frames, t.frames):
        for k, v in fb.env.items():
            a = fa.env.get(k)
            if a is not None and a != v:
                todo.append((a, v))
    for n, o in t.heap.items():
        a = s.heap.get(n)
        if isinstance(a, ObjO) and isinstance(o, ObjO) and a is not o and a != o:
            da = a.d()
            for k, v in o.attrs:
                x = da.get(k)
                if x is not None and x != v:
                    todo.append((x, v))
    while todo:
        a, b = todo.pop()
        if isinstance(a, TupV) and isinstance(b, TupV) and len(a.items) == len(b.items):
            todo.extend(zip(a.items, b.items))
            continue
        if not (isinstance(a, Addr) and isinstance(b, Addr)) or a == b:
            continue
        if b.n in mp or a.n in taken or a.n in t.heap or b.n in s.heap:
            continue
        oa, ob = s.heap.get(a.n), t.heap.get(b.n)
        if oa is None or ob is None or _kind(oa) != _kind(ob):
            continue
        mp[b.n] = a
        taken.add(a.n)
        if isinstance(oa, ObjO):
            da = oa.d()
            todo.extend((da[k], v) for k, v in ob.attrs if k in da)
        elif isinstance(oa, SeqO) and len(oa.items) == len(ob.items):
            todo.extend(zip(oa.items, ob.items))
        elif isinstance(oa, DictO):
            da = oa.d()
            todo.extend((da[k], v) for k, v in ob.items if k in da)
    if not mp:
        return t

    def ren(v):
        if isinstance(v, Addr):
            return mp.get(v.n, v)
        if isinstance(v, TupV):
            return TupV(tuple(ren(i) for i in v.items))
        if isinstance(v, Union):
            return mkunion([ren(i) for i in v.vals])
        if isinstance(v, FuncV) and isinstance(v.selfv, Addr) and v.selfv.n in mp:
            return FuncV(v.fi, mp[v.selfv.n], v.fid, v.snap)
        if isinstance(v, MethV) and isinstance(v.base, (Addr, TupV)):
            return MethV(ren(v.base), v.name)
        return v

    t = t.copy()
    for f in t.frames:
        for k in list(f.env):
            f.env[k] = ren(f.env[k])
    heap = {}
    for n, o in t.heap.items():
        if isinstance(o, ObjO):
            o2 = ObjO(o.cls, tuple((k, ren(v)) for k, v in o.attrs), o.root)
        elif isinstance(o, SeqO):
            o2 = SeqO(o.kind, tuple(ren(i) for i in o.items), o.exact, o.must)
        elif isinstance(o, DictO):
            o2 = DictO(tuple((k, ren(v)) for k, v in o.items), o.exact, ren(o.rest) if o.rest is not None else None)
        else:
            o2 = o
        heap[mp[n].n if n in mp else n] = o2
    t.heap = heap
    return t


def join_states(states):
    s = states[0].copy()
    for t in states[1:]:
        t = align(s, t)
        for fa, fb in zip(s.frames, t.frames):
            for k, v in fb.env.items():
                if k in fa.env:
                    if fa.env[k] != v:
                        fa.env[k] = mkunion([fa.env[k], v])
                else:
                    fa.env[k] = v
        for n, o in t.heap.items():
            if n in s.heap:
                if s.heap[n] != o:
                    s.heap[n] = join_heap(s.heap[n], o)
            else:
                s.heap[n] = o
        s.dec = {k: v for k, v in s.dec.items() if t.dec.get(k, None) == v}
        s.must = s.must & t.must
        s.may = s.may | t.may
        for k, v in t.gcache.items():
            s.gcache.setdefault(k, v)
    return s


ALIAS_FUNCS = {
    "numpy.asarray", "numpy.asanyarray", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.ravel",
    "numpy.squeeze", "numpy.reshape", "numpy.transpose", "numpy.swapaxes", "numpy.ma.asarray",
    "numpy.broadcast_to", "numpy.expand_dims",
}
COPY_FUNCS = {
    "numpy.copy", "numpy.array", "copy.copy", "copy.deepcopy", "numpy.sort", "numpy.ma.array",
    "numpy.ma.copy", "numpy.concatenate", "numpy.append", "numpy.unique_rows", "numpy.flip", "numpy.roll",
}
ALIAS_METHODS = {"ravel", "reshape", "view", "squeeze", "transpose", "swapaxes", "T", "values", "filled_view"}
COPY_METHODS = {"copy", "astype", "flatten", "compressed", "filled", "tolist", "to_records", "__copy__",
                "__deepcopy__", "to_numpy"}
MUT_METHODS = {
    "sort", "fill", "resize", "put", "itemset", "append", "extend", "insert", "remove", "pop", "clear",
    "update", "setdefault", "add", "discard", "setflags", "partition", "reverse", "harden_mask",
    "soften_mask", "popitem", "setfield", "byteswap_inplace",
}
INPLACE_KW_METHODS = {"drop", "reset_index", "set_index", "rename", "fillna", "sort_values", "sort_index",
                      "query", "drop_duplicates", "replace", "dropna", "eval", "mask", "where", "interpolate"}
MUT_FUNCS = {  # function -> mutated arg index
    "numpy.put": 0, "numpy.copyto": 0, "numpy.place": 0, "numpy.putmask": 0, "numpy.fill_diagonal": 0,
    "numpy.random.shuffle": 0, "random.shuffle": 0, "heapq.heappush": 0, "heapq.heappop": 0,
    "heapq.heapify": 0, "numpy.random.mtrand.shuffle": 0, "numpy.ma.put": 0,
}


class Client:
    """Hooks; override what is needed."""

    def data_root(self, root):
        """Row selection on a reference with this root keeps the reference."""
        return False

    def load_sub(self, it, st, base, key, node):
        return None  # or list[(st, value)]

    def store_sub(self, it, st, base, key, value, node):
        pass

    def load_attr(self, it, st, base, attr, node):
        return None

    def store_attr(self, it, st, base, attr, value, node):
        pass

    def mutate(self, it, st, ref, how, node):
        pass

    def call(self, it, st, fn, args, kw, node):
        return None  # or list[(st, value)]

    def inlined(self, it, st, fi):
        """return False to forbid inlining"""
        return True

    def enter_with(self, it, st, val, node):
        return None

    def exit_with(self, it, st, val, node):
        pass

    def store_global(self, it, st, module, name, value, node):
        pass

    def stmt(self, it, st, node):
        pass

    def cmp(self, it, st, op, l, r):
        """decide a comparison: True/False/None/Pred"""
        return None

    def nonempty(self, it, st, v):
        """is this (opaque) iterable known to be non-empty?"""
        return False


class Interp:
    def __init__(self, project, client=None, budget=60000, maxp=MAXP, exc_edges=False):
        self.p = project
        self.c = client or Client()
        self.n = 0
        self.steps = 0
        self.budget = budget
        self.maxp = maxp
        self.exc_edges = exc_edges
        self.unresolved = 0
        self.inlined_funcs = set()
        self.stack = []

    # ------------------------------------------------------------ util
    def tick(self, k=1):
        self.steps += k
        if self.steps > self.budget:
            raise Budget()

    def alloc(self, st, obj):
        self.n += 1
        st.heap[self.n] = obj
        return Addr(self.n)

    def newlist(self, st, items, kind="list", exact=True):
        return self.alloc(st, SeqO(kind, tuple(items), exact))

    def newdict(self, st, items=None, exact=True, rest=None):
        return self.alloc(st, DictO(tuple((items or {}).items()), exact, rest))

    def newobj(self, st, cls, attrs=None, root=None):
        return self.alloc(st, ObjO(cls, tuple((attrs or {}).items()), root))

    def ho(self, st, v):
        return st.heap.get(v.n) if isinstance(v, Addr) else None

    def setattr_(self, st, addr, name, val):
        o = st.heap[addr.n]
        d = o.d()
        d[name] = val
        st.heap[addr.n] = ObjO(o.cls, tuple(d.items()), o.root)

    def limit(self, states):
        if len(states) > self.maxp:
            return [join_states(states)]
        return states

    def limit_pairs(self, pairs):
        if len(pairs) <= self.maxp:
            return pairs
        raises = [p for p in pairs if isinstance(p[1], Raise)]
        oks = [p for p in pairs if not isinstance(p[1], Raise)]
        out = []
        for grp in (oks, raises):
            if not grp:
                continue
            # group by value when few distinct values, to keep correlation
            byv = {}
            for s, v in grp:
                byv.setdefault(v, []).append(s)
            if len(byv) <= 6:
                for v, ss in byv.items():
                    out.append((join_states(ss), v))
            else:
                ss = []
                for s, v in grp:
                    s = s.copy()
                    s.frames[-1].env["@v"] = v
                    ss.append(s)
                j = join_states(ss)
                out.append((j, j.frames[-1].env.pop("@v")))
        return out

    def explode(self, st, v):
        if isinstance(v, Union):
            vals = v.vals
            if len(vals) == 1:
                return [(st, vals[0])]
            return [(st.copy(), x) for x in vals]
        return [(st, v)]

    # ------------------------------------------------------------ entry
    def call_function(self, st, fi, args, kw, node=None, selfv=None, fid=None, snap=None):
        """Inline a project function. Returns list[(st, value|Raise)]."""
        self.tick()
        if self.stack.count(fi) >= 2 or len(self.stack) >= MAXDEPTH:
            self.unresolved += 1
            t = frozenset()
            for a in list(args) + list(kw.values()):
                t |= taint_of(a, st.heap)
            return [(st, Unk(t))]
        env, ok = self.bind(st, fi, args, kw, selfv)
        if not ok:
            return [(st, UNK)]
        self.n += 1
        myfid = self.n
        glob = frozenset(
            n for s in walk_shallow(fi.node) if isinstance(s, ast.Global) for n in s.names
        )
        if fid and snap:
            env["@closure"] = (fid, snap)
        st.frames.append(Frame(env, fi, myfid, glob))
        self.stack.append(fi)
        self.inlined_funcs.add(fi)
        try:
            if isinstance(fi.node, ast.Lambda):
                res = self.eval(st, fi.node.body)
                out = res
            else:
                comp = self.exec_block(fi.node.body, [st])
                out = []
                for s in comp["normal"]:
                    out.append((s, NONE))
                for s, v in comp["return"]:
                    out.append((s, v))
                for s, n in comp["raise"]:
                    out.append((s, Raise(n)))
                if fi.is_generator:
                    out = [(s, v if isinstance(v, Raise) else self.gen_value(s)) for s, v in out]
        finally:
            self.stack.pop()
        seen = set()
        fixed = []
        for s, v in out:
            if id(s) in seen:
                s = s.copy()
            seen.add(id(s))
            fixed.append((s, v))
        # (a state listed twice is copied before either frame is popped)
        out = fixed
        for s, _ in out:
            s.frames.pop()
        return self.limit_pairs(out)

    def gen_value(self, s):
        ys = s.env.get("@yield")
        if ys is None:
            return self.newlist(s, [], exact=False)
        return self.alloc(s, SeqO("list", ys.items, False))

    def bind(self, st, fi, args, kw, selfv):
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kw = dict(kw)
        star = kw.pop("@star", None)
        dstar = kw.pop("@dstar", None)
        if selfv is not None and not fi.is_static:
            args = [selfv] + args
        env = {}
        i = 0
        for i, name in enumerate(pos):
            if i < len(args):
                env[name] = args[i]
            elif name in kw:
                env[name] = kw.pop(name)
        extra = args[len(pos):]
        if a.vararg:
            env[a.vararg.arg] = TupV(tuple(extra)) if star is None else Unk(taint_of(star, st.heap))
        for x in a.kwonlyargs:
            if x.arg in kw:
                env[x.arg] = kw.pop(x.arg)
        defaults = fi.defaults()
        for name in pos + [x.arg for x in a.kwonlyargs]:
            if name not in env:
                if star is not None:
                    env[name] = Unk(taint_of(star, st.heap))
                elif name in defaults:
                    env[name] = self.default_value(st, fi, name, defaults[name])
                elif dstar is not None:
                    env[name] = Unk(taint_of(dstar, st.heap))
                else:
                    env[name] = UNK
        if a.kwarg:
            env[a.kwarg.arg] = self.newdict(st, {Const(k): v for k, v in kw.items()}, dstar is None, dstar)
        return env, True

    def default_value(self, st, fi, name, node):
        """Default argument value evaluated in the defining module (shared object)."""
        key = ("default", id(fi), name)
        if key in st.gcache:
            return st.gcache[key]
        v = self.eval_static(st, fi.module, node, tag=f"default:{fi.qualname}.{name}")
        st.gcache[key] = v
        return v

    def eval_static(self, st, module, node, tag="static"):
        fi = _ModuleFunc(module)
        self.n += 1
        w = st.copy()
        w.frames = [Frame({}, fi, self.n)]
        r = self.eval(w, node)
        s, v = r[0]
        if len(r) > 1 or isinstance(v, Raise):
            return UNK
        st.heap = s.heap
        st.gcache = s.gcache
        return v

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, states):
        comp = {"normal": list(states), "return": [], "raise": [], "break": [], "continue": []}
        for s in stmts:
            cur = comp["normal"]
            if not cur:
                break
            comp["normal"] = []
            cur = self.limit(cur)
            for st in cur:
                self.tick()
                self.c.stmt(self, st, s)
                if self.exc_edges and has_call(s) and not isinstance(
                    s, (ast.Try, ast.With, ast.For, ast.While, ast.If, ast.FunctionDef, ast.ClassDef)
                ):
                    comp["raise"].append((st.copy(), "?"))
                r = self.exec_stmt(s, st)
                for k, v in r.items():
                    comp[k].extend(v)
        comp["normal"] = self.limit(comp["normal"])
        if len(comp["return"]) > self.maxp:
            comp["return"] = self.limit_pairs(comp["return"])
        if len(comp["raise"]) > self.maxp:
            byn = {}
            for s, n in comp["raise"]:
                byn.setdefault(n, []).append(s)
            comp["raise"] = [(join_states(ss), n) for n, ss in byn.items()]
        return comp

    def ev(self, st, node, out):
        """eval; push raising paths to out['raise']; yield ok pairs"""
        ok = []
        for s, v in self.eval(st, node):
            if isinstance(v, Raise):
                out.setdefault("raise", []).append((s, v.name))
            else:
                ok.append((s, v))
        return ok

    def exec_stmt(self, s, st):
        out = {"normal": []}
        if isinstance(s, ast.Expr):
            for t, v in self.ev(st, s.value, out):
                out["normal"].append(t)
        elif isinstance(s, ast.Assign):
            for t, v in self.ev(st, s.value, out):
                ts = [t]
                for tg in s.targets:
                    ts = [u for x in ts for u in self.assign(x, tg, v, out)]
                out["normal"].extend(ts)
        elif isinstance(s, ast.AnnAssign):
            if s.value is None:
                out["normal"].append(st)
            else:
                for t, v in self.ev(st, s.value, out):
                    out["normal"].extend(self.assign(t, s.target, v, out))
        elif isinstance(s, ast.AugAssign):
            self.exec_aug(s, st, out)
        elif isinstance(s, ast.Return):
            if s.value is None:
                out["return"] = [(st, NONE)]
            else:
                out["return"] = self.ev(st, s.value, out)
        elif isinstance(s, ast.Raise):
            name = "Exception"
            if s.exc is not None:
                n = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
                name = ast.unparse(n)
                if isinstance(n, ast.Name) and n.id in st.env:
                    name = "?"
            else:
                name = st.env.get("@exc", Const("?")).v if isinstance(st.env.get("@exc"), Const) else "?"
            out.setdefault("raise", []).append((st, name))
        elif isinstance(s, ast.If):
            for t, b in self.branch(st, s.test, out):
                r = self.exec_block(s.body if b else s.orelse, [t])
                for k, v in r.items():
                    out.setdefault(k, []).extend(v)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.exec_for(s, st, out)
        elif isinstance(s, ast.While):
            self.exec_while(s, st, out)
        elif isinstance(s, ast.Break):
            out["break"] = [st]
        elif isinstance(s, ast.Continue):
            out["continue"] = [st]
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            self.exec_with(s, st, out)
        elif isinstance(s, ast.Try) or s.__class__.__name__ == "TryStar":
            self.exec_try(s, st, out)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            fi = self.nested(s, st)
            sn = self.snapshot(st)
            st.env[s.name] = FuncV(fi, None, st.frames[-1].fid, sn)
            out["normal"].append(st)
        elif isinstance(s, ast.ClassDef):
            st.env[s.name] = UNK
            out["normal"].append(st)
        elif isinstance(s, ast.Delete):
            for tg in s.targets:
                if isinstance(tg, ast.Name):
                    st.env.pop(tg.id, None)
                elif isinstance(tg, ast.Subscript):
                    for t, b in self.eval(st, tg.value)[:1]:
                        for t2, k in self.eval(t, tg.slice)[:1]:
                            self.del_sub(t2, b, k, s)
                elif isinstance(tg, ast.Attribute):
                    for t, b in self.eval(st, tg.value)[:1]:
                        o = self.ho(t, b)
                        if isinstance(o, ObjO):
                            d = o.d()
                            d.pop(tg.attr, None)
                            t.heap[b.n] = ObjO(o.cls, tuple(d.items()), o.root)
            out["normal"].append(st)
        elif isinstance(s, ast.Assert):
            for t, b in self.branch(st, s.test, out):
                if b:
                    out["normal"].append(t)
                else:
                    out.setdefault("raise", []).append((t, "AssertionError"))
        elif isinstance(s, ast.Match):
            self.exec_match(s, st, out)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            self.exec_import(s, st)
            out["normal"].append(st)
        else:
            out["normal"].append(st)
        return out

    def exec_import(self, s, st):
        m = st.fi.module
        if isinstance(s, ast.Import):
            for a in s.names:
                r = self.p.resolve_module(a.name if a.asname else a.name.split(".")[0])
                st.env[a.asname or a.name.split(".")[0]] = self.rv(st, r)
        else:
            base = m.resolve_rel(s.module, s.level)
            for a in s.names:
                r = None
                if base in self.p.modules:
                    r = self.p.member(self.p.modules[base], a.name)
                    if r is None and f"{base}.{a.name}" in self.p.modules:
                        r = ("module", self.p.modules[f"{base}.{a.name}"])
                else:
                    r = ("ext", f"{base}.{a.name}")
                st.env[a.asname or a.name] = self.rv(st, r)

    def nested(self, node, st):
        key = id(node)
        if not hasattr(self.p, "_nested"):
            self.p._nested = {}
        fi = self.p._nested.get(key)
        if fi is None:
            parent = st.fi
            fi = FuncInfo(node, parent.module, cls=None, parent=parent)
            self.p._nested[key] = fi
        return fi

    def snapshot(self, st):
        self.n += 1
        st.heap[self.n] = ("snap", tuple(st.env.items()), st.fi, st.frames[-1].env.get("@closure"))
        return self.n

    def exec_aug(self, s, st, out):
        tg = s.target
        if isinstance(tg, ast.Name):
            for t, rhs in self.ev(st, s.value, out):
                for t1, cur in self.explode(t, self.lookup(t, tg.id, tg)):
                    for t2, v in self.aug_value(t1, cur, s.op, rhs, s):
                        self.store_name(t2, tg.id, v, s)
                        out["normal"].append(t2)
        elif isinstance(tg, ast.Attribute):
            for t, b in self.ev(st, tg.value, out):
                for t, rhs in self.ev(t, s.value, out):
                    for t, b1 in self.explode(t, b):
                        for t, cur in self.get_attr(t, b1, tg.attr, tg):
                            if isinstance(cur, Raise):
                                out.setdefault("raise", []).append((t, cur.name))
                                continue
                            for t1, cur1 in self.explode(t, cur):
                                for t2, v in self.aug_value(t1, cur1, s.op, rhs, s):
                                    out["normal"].extend(self.put_attr(t2, b1, tg.attr, v, s))
        elif isinstance(tg, ast.Subscript):
            for t, b in self.ev(st, tg.value, out):
                for t, k in self.ev(t, tg.slice, out):
                    for t, rhs in self.ev(t, s.value, out):
                        for t, b1 in self.explode(t, b):
                            for t, cur in self.get_sub(t, b1, k, tg):
                                if isinstance(cur, Raise):
                                    out.setdefault("raise", []).append((t, cur.name))
                                    continue
                                v = self.binop(t, cur, s.op, rhs)
                                self.put_sub(t, b1, k, v, s)
                                out["normal"].append(t)

    def aug_value(self, st, cur, op, rhs, node):
        """value of x op= rhs; records in-place mutation of aliased memory"""
        o = self.ho(st, cur)
        if isinstance(o, SeqO) and o.kind == "list" and isinstance(op, ast.Add):
            items, exact = self.iter_items(st, rhs)
            if items is None:
                items, exact = [Unk(taint_of(rhs, st.heap))], False
            st.heap[cur.n] = SeqO(
                o.kind, o.items + tuple(items), o.exact and exact,
                (frozenset(o.items) if o.exact else o.must) | (frozenset(items) if exact else frozenset()),
            )
            self.c.mutate(self, st, cur, "+=", node)
            return [(st, cur)]
        if isinstance(o, DictO) and isinstance(op, ast.BitOr):
            self.dict_update(st, cur, rhs)
            self.c.mutate(self, st, cur, "|=", node)
            return [(st, cur)]
        if isinstance(cur, Ref):
            if not cur.owned:
                self.c.mutate(self, st, cur, "augmented assignment", node)
            return [(st, cur)] if True else None
        return [(st, self.binop(st, cur, op, rhs))]

    def exec_for(self, s, st, out):
        for t, itv in self.ev(st, s.iter, out):
            for t, itv1 in self.explode(t, itv):
                items, exact = self.iter_items(t, itv1)
                if items is not None and exact and len(items) <= MAXUNROLL:
                    cur = [t]
                    done = []
                    for x in items:
                        nxt = []
                        for u in cur:
                            for u2 in self.assign(u, s.target, x, out):
                                r = self.exec_block(s.body, [u2])
                                nxt.extend(r["normal"])
                                nxt.extend(r["continue"])
                                done.extend(r["break"])
                                out.setdefault("return", []).extend(r["return"])
                                out.setdefault("raise", []).extend(r["raise"])
                        cur = self.limit(nxt)
                        if not cur:
                            break
                    if s.orelse and cur:
                        r = self.exec_block(s.orelse, cur)
                        cur = r["normal"]
                        for k in ("return", "raise", "break", "continue"):
                            out.setdefault(k, []).extend(r[k])
                    out["normal"].extend(cur + done)
                    continue
                elem = self.elem_of(t, itv1, s)
                nonempty = self.nonempty(t, itv1)
                exits = [] if nonempty else [t.copy()]
                cur = [t]
                for rnd in range(2):
                    nxt = []
                    for u in cur:
                        for u2 in self.assign(u, s.target, elem, out):
                            r = self.exec_block(s.body, [u2])
                            nxt.extend(r["normal"])
                            nxt.extend(r["continue"])
                            exits.extend(r["break"])
                            out.setdefault("return", []).extend(r["return"])
                            out.setdefault("raise", []).extend(r["raise"])
                    if not nxt:
                        cur = []
                        break
                    cur = [join_states(nxt)] if len(nxt) > 4 else nxt
                    exits.extend(x.copy() for x in cur)
                if s.orelse and exits:
                    r = self.exec_block(s.orelse, exits)
                    exits = r["normal"]
                    for k in ("return", "raise", "break", "continue"):
                        out.setdefault(k, []).extend(r[k])
                if exits:
                    out["normal"].extend(exits if len(exits) <= 4 else [join_states(exits)])

    def nonempty(self, st, v):
        return self.c.nonempty(self, st, v)

    def exec_while(self, s, st, out):
        exits = []
        cur = [st]
        always = isinstance(s.test, ast.Constant) and s.test.value
        for rnd in range(3):
            nxt = []
            for u in cur:
                for t, b in self.branch(u, s.test, out):
                    if not b:
                        exits.append(t)
                        continue
                    if rnd == 2:
                        if not always:
                            exits.append(t)
                        continue
                    r = self.exec_block(s.body, [t])
                    nxt.extend(r["normal"] + r["continue"])
                    exits.extend(r["break"])
                    out.setdefault("return", []).extend(r["return"])
                    out.setdefault("raise", []).extend(r["raise"])
            if not nxt:
                break
            cur = [join_states(nxt)] if len(nxt) > 4 else nxt
        if s.orelse and exits:
            r = self.exec_block(s.orelse, exits)
            exits = r["normal"]
            for k in ("return", "raise", "break", "continue"):
                out.setdefault(k, []).extend(r[k])
        if exits:
            out["normal"].extend(exits if len(exits) <= 6 else [join_states(exits)])

    def exec_with(self, s, st, out):
        states = [(st, [])]
        for item in s.items:
            nxt = []
            for t, vals in states:
                if self.exc_edges:
                    out.setdefault("raise", []).append((t.copy(), "?"))
                for t2, v in self.ev(t, item.context_expr, out):
                    r = self.c.enter_with(self, t2, v, item)
                    bound = v if r is None else r
                    if r is None and isinstance(self.ho(t2, v), ObjO):
                        m = self.p.find_method(self.ho(t2, v).cls, "__enter__") if self.ho(t2, v).cls else None
                        if m is not None:
                            for t3, b3 in self.call_function(t2, m, [], {}, item, selfv=v):
                                if isinstance(b3, Raise):
                                    out.setdefault("raise", []).append((t3, b3.name))
                                    continue
                                if item.optional_vars is not None:
                                    for t4 in self.assign(t3, item.optional_vars, b3, out):
                                        nxt.append((t4, vals + [v]))
                                else:
                                    nxt.append((t3, vals + [v]))
                            continue
                    if item.optional_vars is not None:
                        for t3 in self.assign(t2, item.optional_vars, bound, out):
                            nxt.append((t3, vals + [v]))
                    else:
                        nxt.append((t2, vals + [v]))
            states = nxt
        for t, vals in states:
            r = self.exec_block(s.body, [t])
            for k, lst in r.items():
                for e in lst:
                    es = e[0] if isinstance(e, tuple) else e
                    for v in reversed(vals):
                        self.c.exit_with(self, es, v, (s, k))
                out.setdefault(k, []).extend(lst)

    def exec_try(self, s, st, out):
        pre = st.copy()
        partial = [pre]
        comp = {"normal": [st], "return": [], "raise": [], "break": [], "continue": []}
        # execute body statement by statement, remembering intermediate states
        for b in s.body:
            cur = comp["normal"]
            if not cur:
                break
            comp["normal"] = []
            for x in self.limit(cur):
                self.tick()
                self.c.stmt(self, x, b)
                if self.exc_edges and has_call(b):
                    comp["raise"].append((x.copy(), "?"))
                r = self.exec_stmt(b, x)
                for k, v in r.items():
                    comp[k].extend(v)
            partial.extend(y.copy() for y in comp["normal"][:4])
        if s.orelse and comp["normal"]:
            r = self.exec_block(s.orelse, comp["normal"])
            comp["normal"] = r["normal"]
            for k in ("return", "break", "continue", "raise"):
                comp[k].extend(r[k])
        res = {"normal": comp["normal"], "return": comp["return"], "break": comp["break"],
               "continue": comp["continue"], "raise": []}
        if s.handlers:
            caught_all = False
            names_all = []
            for h in s.handlers:
                nm = handler_names(h)
                names_all.append(nm)
                if nm is None or "Exception" in nm or "BaseException" in nm:
                    caught_all = True
            uncaught = []
            hstarts = []
            for x, n in comp["raise"]:
                hit = False
                for nm in names_all:
                    if n == "?" or nm is None or "Exception" in nm or "BaseException" in nm or n in nm or n.split(".")[-1] in nm:
                        hit = True
                if hit:
                    hstarts.append((x, n))
                if not hit or (n == "?" and not caught_all):
                    uncaught.append((x.copy(), n))
            if not self.exc_edges:
                hstarts.extend((x, "?") for x in partial[:6])
            res["raise"].extend(uncaught)
            for h, nm in zip(s.handlers, names_all):
                starts = []
                for x, n in hstarts:
                    if n == "?" or nm is None or "Exception" in nm or n in nm or n.split(".")[-1] in nm:
                        y = x.copy()
                        if h.name:
                            y.env[h.name] = Ref("exc:" + (n if n != "?" else ast.unparse(h.type) if h.type else "?"))
                        y.env["@exc"] = Const(n)
                        starts.append(y)
                if starts:
                    starts = self.limit(starts) if len(starts) <= 6 else [join_states(starts)]
                    r = self.exec_block(h.body, starts)
                    for k in res:
                        res[k].extend(r[k])
        else:
            res["raise"] = comp["raise"]
        if s.finalbody:
            fin = {"normal": [], "return": [], "break": [], "continue": [], "raise": []}
            for k in res:
                for e in res[k]:
                    x = e[0] if isinstance(e, tuple) else e
                    r = self.exec_block(s.finalbody, [x])
                    for y in r["normal"]:
                        fin[k].append((y, e[1]) if isinstance(e, tuple) else y)
                    for k2 in ("return", "break", "continue", "raise"):
                        fin[k2].extend(r[k2])
            res = fin
        for k in res:
            out.setdefault(k, []).extend(res[k])

    def exec_match(self, s, st, out):
        for t, subj in self.ev(st, s.subject, out):
            cur = t
            for case in s.cases:
                r = self.match_pat(cur, subj, case.pattern)
                if r is False:
                    continue
                u = cur.copy()
                if isinstance(case.pattern, ast.MatchAs) and case.pattern.name:
                    u.env[case.pattern.name] = subj
                if isinstance(r, tuple) and r[0] == "dec":
                    u.dec[r[1]] = True
                    cur.dec[r[1]] = False
                    if len(r) > 2:
                        self.subst(u, r[2], r[3])
                branches = [(u, True)]
                if case.guard is not None:
                    branches = self.branch(u, case.guard, out)
                for w, b in branches:
                    if b:
                        rr = self.exec_block(case.body, [w])
                        for k, v in rr.items():
                            out.setdefault(k, []).extend(v)
                if r is True and case.guard is None:
                    cur = None
                    break
            if cur is not None:
                out["normal"].append(cur)

    def match_pat(self, st, subj, pat):
        if isinstance(pat, ast.MatchAs):
            if pat.pattern is None:
                return True
            return self.match_pat(st, subj, pat.pattern)
        if isinstance(pat, ast.MatchSingleton) or (
            isinstance(pat, ast.MatchValue) and isinstance(pat.value, ast.Constant)
        ):
            c = pat.value if isinstance(pat, ast.MatchSingleton) else pat.value.value
            if isinstance(subj, Const):
                return subj.v == c
            if isinstance(subj, Ref):
                key = ("none", subj) if c is None else ("eq", subj, Const(c))
                if key in st.dec:
                    return st.dec[key]
                return ("dec", key, subj, Const(c))
            return None
        if isinstance(pat, ast.MatchClass):
            key = ("isinst", subj, ast.unparse(pat.cls))
            if isinstance(subj, Const) and subj.v is None:
                return False
            if isinstance(subj, Ref):
                if key in st.dec:
                    return st.dec[key]
                return ("dec", key)
            return None
        return None

    # ------------------------------------------------------------ stores
    def store_name(self, st, name, v, node):
        fr = st.frames[-1]
        if name in fr.globals_:
            self.c.store_global(self, st, fr.fi.module, name, v, node)
            st.gcache[("global", fr.fi.module.name, name)] = v
            return
        fr.env[name] = v

    def assign(self, st, tg, v, out):
        if isinstance(tg, ast.Name):
            self.store_name(st, tg.id, v, tg)
            return [st]
        if isinstance(tg, (ast.Tuple, ast.List)):
            res = []
            for t, v1 in self.explode(st, v):
                items, exact = self.iter_items(t, v1)
                n = len(tg.elts)
                stars = [i for i, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]
                if items is not None and exact and not stars and len(items) == n:
                    vals = items
                elif items is not None and exact and stars and len(items) >= n - 1:
                    i = stars[0]
                    k = len(items) - (n - 1)
                    vals = items[:i] + [self.newlist(t, items[i:i + k])] + items[i + k:]
                else:
                    e = self.elem_of(t, v1, tg)
                    if isinstance(v1, Ref):
                        vals = [Ref(v1.root, v1.path + (f"[{i}]",), v1.owned) for i in range(n)]
                    else:
                        vals = [e] * n
                cur = [t]
                for e, x in zip(tg.elts, vals):
                    e = e.value if isinstance(e, ast.Starred) else e
                    cur = [w for u in cur for w in self.assign(u, e, x, out)]
                res.extend(cur)
            return res
        if isinstance(tg, ast.Attribute):
            res = []
            for t, b in self.ev(st, tg.value, out):
                for t1, b1 in self.explode(t, b):
                    res.extend(self.put_attr(t1, b1, tg.attr, v, tg))
            return res
        if isinstance(tg, ast.Subscript):
            res = []
            for t, b in self.ev(st, tg.value, out):
                for t, k in self.ev(t, tg.slice, out):
                    for t1, b1 in self.explode(t, b):
                        for t2, k1 in self.explode(t1, k):
                            self.put_sub(t2, b1, k1, v, tg)
                            res.append(t2)
            return res
        if isinstance(tg, ast.Starred):
            return self.assign(st, tg.value, v, out)
        return [st]

    def put_attr(self, st, b, attr, v, node):
        self.c.store_attr(self, st, b, attr, v, node)
        o = self.ho(st, b)
        if isinstance(o, ObjO):
            if o.cls is not None:
                for c in self.p.mro(o.cls):
                    if attr in c.setters:
                        r = self.call_function(st, c.setters[attr], [v], {}, node, selfv=b)
                        return [s for s, x in r if not isinstance(x, Raise)]
            self.setattr_(st, b, attr, v)
        elif isinstance(b, Ref):
            if not b.owned:
                self.c.mutate(self, st, Ref(b.root, b.path + ("." + attr,)), "attribute assignment", node)
        return [st]

    def put_sub(self, st, b, k, v, node):
        self.c.store_sub(self, st, b, k, v, node)
        o = self.ho(st, b)
        if isinstance(o, DictO):
            d = o.d()
            if isinstance(k, (Const, Str, Ref, TupV)):
                if k in d or isinstance(k, Const) or True:
                    d[k] = v
                st.heap[b.n] = DictO(tuple(d.items()), o.exact, o.rest)
            else:
                rest = v if o.rest is None else mkunion([o.rest, v])
                st.heap[b.n] = DictO(o.items, False, rest)
            self.c.mutate(self, st, b, "item assignment", node)
        elif isinstance(o, SeqO):
            if isinstance(k, Const) and isinstance(k.v, int) and o.exact and -len(o.items) <= k.v < len(o.items):
                it = list(o.items)
                it[k.v] = v
                st.heap[b.n] = SeqO(o.kind, tuple(it), True)
            else:
                st.heap[b.n] = SeqO(o.kind, tuple(list(o.items) + [v]), False, o.must)
            self.c.mutate(self, st, b, "item assignment", node)
        elif isinstance(b, Ref):
            if not b.owned:
                p = b.path
                if isinstance(k, Const) and isinstance(k.v, str):
                    p = p + (f"[{k.v}]",)
                elif isinstance(k, Ref):
                    p = p + (f"[{k.key()}]",)
                self.c.mutate(self, st, Ref(b.root, p), "item assignment", node)

    def del_sub(self, st, b, k, node):
        o = self.ho(st, b)
        if isinstance(o, DictO):
            d = o.d()
            d.pop(k, None)
            st.heap[b.n] = DictO(tuple(d.items()), o.exact, o.rest)
            self.c.mutate(self, st, b, "del item", node)
        elif isinstance(b, Ref) and not b.owned:
            self.c.mutate(self, st, b, "del item", node)

    # ------------------------------------------------------------ names
    def lookup(self, st, name, node):
        fr = st.frames[-1]
        if name in fr.env and name not in fr.globals_:
            return fr.env[name]
        clo = fr.env.get("@closure")
        hops = 0
        while clo is not None and hops < 6:
            fid, snap = clo
            live = next((f for f in st.frames if f.fid == fid), None)
            if live is not None:
                if name in live.env:
                    return live.env[name]
                clo = live.env.get("@closure")
            else:
                sn = st.heap.get(snap)
                if sn is None:
                    break
                d = dict(sn[1])
                if name in d:
                    return d[name]
                clo = sn[3]
            hops += 1
        return self.global_value(st, fr.fi.module, name)

    def global_value(self, st, module, name):
        key = ("global", module.name, name)
        if key in st.gcache:
            return st.gcache[key]
        r = self.p.resolve(module, name)
        v = self.rv(st, r)
        st.gcache[key] = v
        return v

    def rv(self, st, r):
        if r is None:
            return UNK
        k = r[0]
        if k == "class":
            return ClassV(r[1])
        if k == "func":
            return FuncV(r[1])
        if k == "module":
            return ModV(r[1])
        if k == "ext":
            return ExtV(norm_ext(r[1]))
        if k == "builtin":
            return ExtV("builtins." + r[1])
        if k == "assign":
            m, name = r[1], r[2]
            key = ("gval", m.name, name)
            if key in st.gcache:
                return st.gcache[key]
            st.gcache[key] = Ref(f"global:{m.name}.{name}")
            vals = m.assigns.get(name, [])
            v = Ref(f"global:{m.name}.{name}")
            if len(vals) == 1 and vals[0] is not None and _simple_static(vals[0]):
                v = self.eval_static(st, m, vals[0])
                if isinstance(v, Unk):
                    v = Ref(f"global:{m.name}.{name}")
            st.gcache[key] = v
            return v
        return UNK

    # ------------------------------------------------------------ conditions
    def branch(self, st, test, out):
        """-> list[(state, bool)]"""
        self.tick()
        if isinstance(test, ast.BoolOp):
            res = []
            cur = [st]
            is_and = isinstance(test.op, ast.And)
            for i, v in enumerate(test.values):
                nxt = []
                for s in cur:
                    for t, b in self.branch(s, v, out):
                        if b == is_and:
                            nxt.append(t)
                        else:
                            res.append((t, b))
                cur = nxt
            res.extend((t, is_and) for t in cur)
            return res
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return [(t, not b) for t, b in self.branch(st, test.operand, out)]
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            res = []
            for t, l in self.ev(st, test.left, out):
                for t, r in self.ev(t, test.comparators[0], out):
                    for t, l1 in self.explode(t, l):
                        for t, r1 in self.explode(t, r):
                            res.extend(self.cmp_branch(t, test.ops[0], l1, r1, test))
            return res
        if isinstance(test, ast.NamedExpr):
            res = []
            for t, v in self.ev(st, test, out):
                for t1, v1 in self.explode(t, v):
                    res.extend(self.truth_branch(t1, v1))
            return res
        res = []
        for t, v in self.ev(st, test, out):
            for t1, v1 in self.explode(t, v):
                res.extend(self.truth_branch(t1, v1))
        return res

    def truth(self, st, v):
        if isinstance(v, Const):
            return bool(v.v)
        if isinstance(v, TupV):
            return len(v.items) > 0
        if isinstance(v, (FuncV, ClassV, ModV, ExtV, SuperV)):
            return True
        o = self.ho(st, v)
        if isinstance(o, SeqO):
            if o.exact or o.must:
                return len(o.items) > 0
            return None
        if isinstance(o, DictO):
            if o.exact:
                return len(o.items) > 0
            return None
        if isinstance(o, ObjO):
            return True if not (o.cls and self.p.find_method(o.cls, "__len__")) else None
        if isinstance(v, Str):
            if any(isinstance(p, str) and p for p in v.parts):
                return True
        return None

    def truth_branch(self, st, v):
        k = self.truth(st, v)
        if k is not None:
            return [(st, k)]
        key = None
        if isinstance(v, Ref):
            if ("none", v) in st.dec and st.dec[("none", v)]:
                return [(st, False)]
            key = ("T", v)
        elif isinstance(v, Pred):
            key = v.key
        if key is not None:
            if key in st.dec:
                b = st.dec[key]
                return [(st, b if not (isinstance(v, Pred) and v.neg) else not b)]
            a, b = st.copy(), st
            a.dec[key] = True
            b.dec[key] = False
            if isinstance(v, Pred) and v.neg:
                return [(a, False), (b, True)]
            if isinstance(v, Pred):
                self.apply_pred(a, key, True)
                self.apply_pred(b, key, False)
            else:
                a.dec[("none", v)] = False
            return [(a, True), (b, False)]
        return [(st.copy(), True), (st, False)]

    def apply_pred(self, st, key, val):
        if key[0] == "none" and val:
            self.subst(st, key[1], NONE)
        elif key[0] == "eq" and val and isinstance(key[2], Const):
            self.subst(st, key[1], key[2])

    def cmp_value(self, st, op, l, r):
        """-> True/False/None/Pred"""
        k = self.c.cmp(self, st, op, l, r)
        if k is not None:
            return k
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            neg = isinstance(op, (ast.IsNot, ast.NotEq))
            if isinstance(l, Const) and isinstance(r, Const):
                if isinstance(op, (ast.Is, ast.IsNot)) and not (
                    l.v is None or r.v is None or isinstance(l.v, bool) or isinstance(r.v, bool)
                ):
                    return None
                try:
                    res = (l.v is r.v) if isinstance(op, (ast.Is, ast.IsNot)) else (l.v == r.v)
                except Exception:
                    return None
                return res != neg
            for a, b in ((l, r), (r, l)):
                if isinstance(b, Const) and b.v is None:
                    if isinstance(a, Ref):
                        return Pred(("none", a), neg)
                    if isinstance(a, Unk):
                        return None
                    return neg
            for a, b in ((l, r), (r, l)):
                if isinstance(a, Ref) and isinstance(b, Const):
                    for k2, v2 in st.dec.items():
                        if k2[0] == "eq" and k2[1] == a and v2 and k2[2] != b:
                            return neg
                    return Pred(("eq", a, b), neg)
                if isinstance(a, Ref) and isinstance(b, Ref):
                    if a == b and not self.c.data_root(a.root):
                        return not neg
                    return Pred(("eq", *sorted([a, b], key=repr)), neg)
            if isinstance(l, (ClassV, FuncV, ExtV, ModV)) and isinstance(r, (ClassV, FuncV, ExtV, ModV)):
                return (l == r) != neg
            if isinstance(l, TupV) and isinstance(r, TupV):
                if l == r:
                    return not neg
            return None
        if isinstance(op, (ast.In, ast.NotIn)):
            neg = isinstance(op, ast.NotIn)
            o = self.ho(st, r)
            if isinstance(l, Const) and isinstance(r, Const) and isinstance(l.v, str) and isinstance(r.v, str):
                return (l.v in r.v) != neg
            if isinstance(o, DictO):
                d = o.d()
                if l in d and (o.exact or o.rest is None):
                    return not neg if o.exact else None
                if o.exact and isinstance(l, Const) and all(isinstance(k, Const) for k in d):
                    return neg
                if isinstance(l, Ref):
                    return Pred(("in", l, r), neg)
                return None
            items, exact = self.iter_items(st, r)
            if items is not None:
                if l in items and isinstance(l, (Const, Ref, ClassV, TupV)):
                    if exact:
                        return not neg
                    if isinstance(o, SeqO) and l in o.must:
                        return not neg
                    return None
                if exact and isinstance(l, Const) and all(isinstance(x, Const) for x in items):
                    return neg
                if exact and not items:
                    return neg
                if isinstance(l, Ref) and exact:
                    return Pred(("in", l, TupV(tuple(items))), neg)
                return None
            if isinstance(r, Ref) and isinstance(l, (Const, Ref)):
                return Pred(("in", l, r), neg)
            return None
        if isinstance(l, Const) and isinstance(r, Const):
            try:
                if isinstance(op, ast.Lt):
                    return l.v < r.v
                if isinstance(op, ast.LtE):
                    return l.v <= r.v
                if isinstance(op, ast.Gt):
                    return l.v > r.v
                if isinstance(op, ast.GtE):
                    return l.v >= r.v
            except Exception:
                return None
        return None

    def cmp_branch(self, st, op, l, r, node):
        v = self.cmp_value(st, op, l, r)
        if isinstance(v, bool):
            return [(st, v)]
        if isinstance(v, Pred):
            key = v.key
            if key in st.dec:
                b = st.dec[key]
                return [(st, b != v.neg)]
            if key[0] == "none" and st.dec.get(("T", key[1])) is True:
                return [(st, False != v.neg)]
            a, b = st.copy(), st
            a.dec[key] = True
            b.dec[key] = False
            self.apply_pred(a, key, True)
            return [(a, not v.neg), (b, v.neg)]
        return [(st.copy(), True), (st, False)]

    def subst(self, st, ref, val):
        if not isinstance(ref, Ref):
            return
        for f in st.frames:
            for k, v in f.env.items():
                if v == ref:
                    f.env[k] = val
        for n, o in list(st.heap.items()):
            if isinstance(o, ObjO):
                if any(v == ref for _, v in o.attrs):
                    st.heap[n] = ObjO(o.cls, tuple((k, val if v == ref else v) for k, v in o.attrs), o.root)
            elif isinstance(o, DictO):
                if any(v == ref for _, v in o.items):
                    st.heap[n] = DictO(tuple((k, val if v == ref else v) for k, v in o.items), o.exact, o.rest)
            elif isinstance(o, SeqO):
                if ref in o.items:
                    st.heap[n] = SeqO(o.kind, tuple(val if v == ref else v for v in o.items), o.exact, o.must)

    # ------------------------------------------------------------ iteration
    def iter_items(self, st, v):
        """-> (list|None, exact)"""
        if isinstance(v, TupV):
            return list(v.items), True
        if isinstance(v, Const) and isinstance(v.v, (str,)):
            return [Const(c) for c in v.v], True
        if isinstance(v, Const) and isinstance(v.v, (tuple, range)):
            return [Const(c) for c in v.v], True
        o = self.ho(st, v)
        if isinstance(o, SeqO):
            return list(o.items), o.exact
        if isinstance(o, DictO):
            return [k for k, _ in o.items], o.exact
        return None, False

    def elem_of(self, st, v, node):
        if isinstance(v, Ref):
            if self.c.data_root(v.root):
                return v
            return Ref(v.root, v.path + ("[*]",), v.owned)
        o = self.ho(st, v)
        if isinstance(o, SeqO) and o.items:
            return mkunion(o.items)
        if isinstance(o, DictO):
            if o.items:
                return mkunion([k for k, _ in o.items])
        if isinstance(v, TupV) and v.items:
            return mkunion(v.items)
        return Unk(taint_of(v, st.heap))

    # ------------------------------------------------------------ expressions
    def eval_many(self, st, nodes):
        res = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vals in res:
                if isinstance(vals, Raise):
                    nxt.append((s, vals))
                    continue
                for t, v in self.eval(s, n):
                    if isinstance(v, Raise):
                        nxt.append((t, v))
                    else:
                        nxt.append((t, vals + [v]))
            res = nxt
            if len(res) > self.maxp:
                oks = [r for r in res if not isinstance(r[1], Raise)]
                rs = [r for r in res if isinstance(r[1], Raise)]
                if oks:
                    j = join_states([s for s, _ in oks])
                    vv = [mkunion(list(x)) for x in zip(*[v for _, v in oks])]
                    res = rs[:4] + [(j, vv)]
        return res

    def eval(self, st, node):
        self.tick()
        m = getattr(self, "e_" + node.__class__.__name__, None)
        if m is None:
            return [(st, UNK)]
        return self.limit_pairs(m(st, node))

    def e_Constant(self, st, n):
        return [(st, Const(n.value))]

    def e_Name(self, st, n):
        return [(st, self.lookup(st, n.id, n))]

    def e_NamedExpr(self, st, n):
        out = []
        for t, v in self.eval(st, n.value):
            if not isinstance(v, Raise):
                self.store_name(t, n.target.id, v, n)
            out.append((t, v))
        return out

    def e_Tuple(self, st, n):
        return [(t, v if isinstance(v, Raise) else TupV(tuple(self.flatstar(t, n.elts, v)))) for t, v in
                self.eval_many(st, [unstar(e) for e in n.elts])]

    def flatstar(self, st, elts, vals):
        out = []
        for e, v in zip(elts, vals):
            if isinstance(e, ast.Starred):
                items, exact = self.iter_items(st, v)
                if items is not None:
                    out.extend(items)
                else:
                    out.append(Unk(taint_of(v, st.heap)))
            else:
                out.append(v)
        return out

    def e_List(self, st, n):
        out = []
        for t, v in self.eval_many(st, [unstar(e) for e in n.elts]):
            if isinstance(v, Raise):
                out.append((t, v))
            else:
                exact = True
                for e, x in zip(n.elts, v):
                    if isinstance(e, ast.Starred):
                        it, ex = self.iter_items(t, x)
                        exact = exact and it is not None and ex
                out.append((t, self.newlist(t, self.flatstar(t, n.elts, v), exact=exact)))
        return out

    def e_Set(self, st, n):
        return [(t, v if isinstance(v, Raise) else self.newlist(t, self.flatstar(t, n.elts, v), "set")) for t, v in
                self.eval_many(st, [unstar(e) for e in n.elts])]

    def e_Dict(self, st, n):
        out = []
        keys = [k for k in n.keys]
        nodes = []
        for k, v in zip(keys, n.values):
            nodes.append(k if k is not None else ast.Constant(value=None))
            nodes.append(v)
        for t, vals in self.eval_many(st, nodes):
            if isinstance(vals, Raise):
                out.append((t, vals))
                continue
            d, exact, rest = {}, True, None
            for i, k in enumerate(keys):
                kv, vv = vals[2 * i], vals[2 * i + 1]
                if k is None:
                    o = self.ho(t, vv)
                    if isinstance(o, DictO):
                        d.update(o.d())
                        exact = exact and o.exact
                        rest = o.rest if rest is None else rest
                    else:
                        exact = False
                        rest = Unk(taint_of(vv, t.heap))
                elif isinstance(kv, (Unk, Union)):
                    exact = False
                    rest = vv if rest is None else mkunion([rest, vv])
                else:
                    d[kv] = vv
            out.append((t, self.newdict(t, d, exact, rest)))
        return out

    def e_Lambda(self, st, n):
        fi = self.nested(n, st)
        return [(st, FuncV(fi, None, st.frames[-1].fid, self.snapshot(st)))]

    def e_Starred(self, st, n):
        return self.eval(st, n.value)

    def e_Await(self, st, n):
        return self.eval(st, n.value)

    def e_Yield(self, st, n):
        if n.value is None:
            return [(st, NONE)]
        out = []
        for t, v in self.eval(st, n.value):
            if not isinstance(v, Raise):
                ys = t.env.get("@yield", TupV(()))
                if v not in ys.items and len(ys.items) < 40:
                    t.env["@yield"] = TupV(ys.items + (v,))
            out.append((t, UNK))
        return out

    def e_JoinedStr(self, st, n):
        nodes = [v.value for v in n.values if isinstance(v, ast.FormattedValue)]
        out = []
        for t, vals in self.eval_many(st, nodes):
            if isinstance(vals, Raise):
                out.append((t, vals))
                continue
            parts = []
            i = 0
            for v in n.values:
                if isinstance(v, ast.Constant):
                    parts.append(v.value)
                else:
                    x = vals[i]
                    i += 1
                    plain = v.format_spec is None and v.conversion in (-1, 115)
                    if isinstance(x, Const) and plain:
                        parts.append(str(x.v))
                    elif isinstance(x, Str) and plain:
                        parts.extend(x.parts)
                    else:
                        parts.append(x)
            out.append((t, mkstr(parts)))
        return out

    def e_FormattedValue(self, st, n):
        return self.eval(st, n.value)

    def e_IfExp(self, st, n):
        o = {}
        res = []
        for t, b in self.branch(st, n.test, o):
            res.extend(self.eval(t, n.body if b else n.orelse))
        for s, nm in o.get("raise", []):
            res.append((s, Raise(nm)))
        return res

    def e_BoolOp(self, st, n):
        # value semantics: a or b
        is_or = isinstance(n.op, ast.Or)
        res = []
        cur = [st]
        for i, e in enumerate(n.values):
            last = i == len(n.values) - 1
            nxt = []
            for s in cur:
                for t, v in self.eval(s, e):
                    if isinstance(v, Raise) or last:
                        res.append((t, v))
                        continue
                    for t1, v1 in self.explode(t, v):
                        for t2, b in self.truth_branch(t1, v1):
                            if b == is_or:
                                res.append((t2, v1 if not isinstance(v1, Pred) else Const(b)))
                            else:
                                nxt.append(t2)
            cur = nxt
            if not cur:
                break
        return res

    def e_UnaryOp(self, st, n):
        res = []
        for t, v in self.eval(st, n.operand):
            if isinstance(v, Raise):
                res.append((t, v))
                continue
            for t1, v1 in self.explode(t, v):
                if isinstance(n.op, ast.Not):
                    k = self.truth(t1, v1)
                    if k is not None:
                        res.append((t1, Const(not k)))
                    elif isinstance(v1, Pred):
                        res.append((t1, Pred(v1.key, not v1.neg)))
                    elif isinstance(v1, Ref):
                        res.append((t1, Pred(("T", v1), True)))
                    else:
                        res.append((t1, Unk(taint_of(v1, t1.heap))))
                elif isinstance(v1, Const) and isinstance(v1.v, (int, float)):
                    try:
                        r = {ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[
                            type(n.op)](v1.v)
                        res.append((t1, Const(r)))
                    except Exception:
                        res.append((t1, UNK))
                else:
                    res.append((t1, Unk(taint_of(v1, t1.heap))))
        return res

    def e_BinOp(self, st, n):
        res = []
        for t, vals in self.eval_many(st, [n.left, n.right]):
            if isinstance(vals, Raise):
                res.append((t, vals))
                continue
            for t1, l in self.explode(t, vals[0]):
                for t2, r in self.explode(t1, vals[1]):
                    res.append((t2, self.binop(t2, l, n.op, r)))
        return res

    def binop(self, st, l, op, r):
        if isinstance(l, Union) or isinstance(r, Union):
            ls = l.vals if isinstance(l, Union) else (l,)
            rs = r.vals if isinstance(r, Union) else (r,)
            return mkunion([self.binop(st, a, op, b) for a in ls for b in rs][:12])
        if isinstance(op, ast.Add):
            if is_str(l) or is_str(r):
                if isinstance(l, Const) and not isinstance(l.v, str) or isinstance(r, Const) and not isinstance(r.v, str):
                    return Unk(taint_of(l) | taint_of(r))
                return mkstr(str_parts(l) + str_parts(r))
            lo, ro = self.ho(st, l), self.ho(st, r)
            if isinstance(lo, SeqO) and isinstance(ro, SeqO):
                return self.alloc(st, SeqO(lo.kind, lo.items + ro.items, lo.exact and ro.exact,
                                           (frozenset(lo.items) if lo.exact else lo.must)
                                           | (frozenset(ro.items) if ro.exact else ro.must)))
            if isinstance(l, TupV) and isinstance(r, TupV):
                return TupV(l.items + r.items)
            if isinstance(lo, SeqO) and not isinstance(r, Const):
                return self.alloc(st, SeqO(lo.kind, lo.items + (Unk(taint_of(r, st.heap)),), False,
                                           frozenset(lo.items) if lo.exact else lo.must))
        if isinstance(op, ast.BitOr):
            lo, ro = self.ho(st, l), self.ho(st, r)
            if isinstance(lo, DictO) and isinstance(ro, DictO):
                d = lo.d()
                d.update(ro.d())
                return self.newdict(st, d, lo.exact and ro.exact, lo.rest or ro.rest)
            if isinstance(lo, SeqO) and isinstance(ro, SeqO):
                it = list(lo.items) + [x for x in ro.items if x not in lo.items]
                return self.alloc(st, SeqO("set", tuple(it), lo.exact and ro.exact))
        if isinstance(op, ast.Sub):
            lo, ro = self.ho(st, l), self.ho(st, r)
            if isinstance(lo, SeqO) and isinstance(ro, SeqO) and lo.kind == "set":
                return self.alloc(st, SeqO("set", tuple(x for x in lo.items if x not in ro.items),
                                           lo.exact and ro.exact))
        if isinstance(op, ast.BitAnd):
            lo, ro = self.ho(st, l), self.ho(st, r)
            if isinstance(lo, SeqO) and isinstance(ro, SeqO):
                return self.alloc(st, SeqO("set", tuple(x for x in lo.items if x in ro.items), lo.exact and ro.exact))
        if isinstance(op, ast.Mod) and is_str(l):
            return self.percent(st, l, r)
        if isinstance(op, ast.Mult):
            for a, b in ((l, r), (r, l)):
                o = self.ho(st, a)
                if isinstance(o, SeqO):
                    if isinstance(b, Const) and isinstance(b.v, int) and b.v <= 64:
                        return self.alloc(st, SeqO(o.kind, o.items * b.v, o.exact, o.must))
                    return self.alloc(st, SeqO(o.kind, o.items, False, frozenset()))
        if isinstance(l, Const) and isinstance(r, Const):
            try:
                f = _OPS.get(type(op))
                if f is not None and not (isinstance(op, ast.Pow) and abs(r.v) > 100):
                    return Const(f(l.v, r.v))
            except Exception:
                return UNK
        return Unk(taint_of(l, st.heap) | taint_of(r, st.heap))

    def percent(self, st, l, r):
        if not (isinstance(l, Const) and isinstance(l.v, str)):
            return mkstr(str_parts(l) + [Unk(taint_of(r, st.heap))])
        args = list(r.items) if isinstance(r, TupV) else [r]
        import re

        parts = []
        i = 0
        pos = 0
        for m in re.finditer(r"%(\(\w+\))?[-#0 +]*\d*(?:\.\d+)?([a-zA-Z%])", l.v):
            parts.append(l.v[pos:m.start()])
            pos = m.end()
            if m.group(2) == "%":
                parts.append("%")
                continue
            if m.group(1):
                parts.append(Unk(taint_of(r, st.heap)))
                continue
            if i < len(args):
                a = args[i]
                i += 1
                if isinstance(a, Const) and m.group(0) in ("%s", "%d", "%i"):
                    parts.append(str(a.v))
                elif isinstance(a, Str) and m.group(0) == "%s":
                    parts.extend(a.parts)
                else:
                    parts.append(a)
            else:
                parts.append(UNK)
        parts.append(l.v[pos:])
        return mkstr(parts)

    def e_Compare(self, st, n):
        res = []
        for t, vals in self.eval_many(st, [n.left] + n.comparators):
            if isinstance(vals, Raise):
                res.append((t, vals))
                continue
            if len(n.ops) == 1:
                for t1, l in self.explode(t, vals[0]):
                    for t2, r in self.explode(t1, vals[1]):
                        v = self.cmp_value(t2, n.ops[0], l, r)
                        if isinstance(v, bool):
                            res.append((t2, Const(v)))
                        elif isinstance(v, Pred):
                            if v.key[0] in ("none",) or (v.key[0] == "in"):
                                res.append((t2, v))
                            elif v.key[0] == "eq" and isinstance(v.key[2], Const) and not self.c.data_root(
                                v.key[1].root
                            ):
                                res.append((t2, v))
                            else:
                                res.append((t2, Unk(taint_of(l, t2.heap) | taint_of(r, t2.heap))))
                        else:
                            res.append((t2, Unk(taint_of(l, t2.heap) | taint_of(r, t2.heap))))
            else:
                tt = frozenset()
                for v in vals:
                    tt |= taint_of(v, t.heap)
                res.append((t, Unk(tt)))
        return res

    def e_Attribute(self, st, n):
        res = []
        for t, b in self.eval(st, n.value):
            if isinstance(b, Raise):
                res.append((t, b))
                continue
            for t1, b1 in self.explode(t, b):
                res.extend(self.get_attr(t1, b1, n.attr, n))
        return res

    def get_attr(self, st, b, attr, node):
        r = self.c.load_attr(self, st, b, attr, node)
        if r is not None:
            return r
        if isinstance(b, Addr):
            o = st.heap.get(b.n)
            if isinstance(o, ObjO):
                d = o.d()
                if attr in d:
                    return [(st, d[attr])]
                if attr == "__class__" and o.cls is not None:
                    return [(st, ClassV(o.cls))]
                if o.cls is not None:
                    m = self.p.find_method(o.cls, attr)
                    ca = self.p.find_class_attr(o.cls, attr)
                    if m is not None and ca is not None:
                        mro = self.p.mro(o.cls)
                        if mro.index(ca[0]) < mro.index(m.cls):
                            m = None
                    if m is not None:
                        if m.is_property or any("cached_property" in x for x in m.decorators):
                            return self.call_function(st, m, [], {}, node, selfv=b)
                        if m.is_static:
                            return [(st, FuncV(m))]
                        return [(st, FuncV(m, b))]
                    if ca is not None and ca[1] is not None:
                        return [(st, self.class_attr(st, ca[0], attr, ca[1]))]
                if o.root is not None:
                    return [(st, Ref(o.root, ("." + attr,)))]
                return [(st, MethV(b, attr))] if o.cls is None else [(st, Unk(frozenset([f"attr:{attr}"])))]
            return [(st, MethV(b, attr))]
        if isinstance(b, ClassV):
            m = self.p.find_method(b.ci, attr)
            if m is not None:
                return [(st, FuncV(m, b if m.is_classmethod else None))]
            ca = self.p.find_class_attr(b.ci, attr)
            if ca is not None and ca[1] is not None:
                return [(st, self.class_attr(st, ca[0], attr, ca[1]))]
            if attr == "__name__":
                return [(st, Const(b.ci.name))]
            return [(st, MethV(b, attr))]
        if isinstance(b, ModV):
            r = self.p.member(b.mi, attr)
            if r is None and f"{b.mi.name}.{attr}" in self.p.modules:
                r = ("module", self.p.modules[f"{b.mi.name}.{attr}"])
            if r is not None and r[0] == "assign":
                return [(st, self.global_value(st, b.mi, attr))]
            return [(st, self.rv(st, r))]
        if isinstance(b, ExtV):
            nm = f"{b.name}.{attr}"
            if nm in _EXTCONST:
                return [(st, Const(_EXTCONST[nm]))]
            return [(st, ExtV(norm_ext(nm)))]
        if isinstance(b, SuperV):
            o = self.ho(st, b.selfv)
            cls = o.cls if isinstance(o, ObjO) else (b.selfv.ci if isinstance(b.selfv, ClassV) else None)
            if cls is not None:
                m = self.p.find_method_after(cls, b.after, attr)
                if m is not None:
                    if m.is_property:
                        return self.call_function(st, m, [], {}, node, selfv=b.selfv)
                    return [(st, FuncV(m, None if m.is_static else b.selfv))]
                for c in self.p.mro(cls)[self.p.mro(cls).index(b.after) + 1 if b.after in self.p.mro(cls) else 0:]:
                    if attr in c.attrs and c.attrs[attr] is not None:
                        return [(st, self.class_attr(st, c, attr, c.attrs[attr]))]
            return [(st, MethV(b, attr))]
        if isinstance(b, Ref):
            return [(st, Ref(b.root, b.path + ("." + attr,), b.owned))]
        return [(st, MethV(b, attr))]

    def class_attr(self, st, cls, attr, node):
        key = ("classattr", cls.module.name, cls.name, attr)
        if key in st.gcache:
            return st.gcache[key]
        v = self.eval_static(st, cls.module, node)
        st.gcache[key] = v
        return v

    def e_Subscript(self, st, n):
        res = []
        for t, vals in self.eval_many(st, [n.value, n.slice]):
            if isinstance(vals, Raise):
                res.append((t, vals))
                continue
            for t1, b in self.explode(t, vals[0]):
                for t2, k in self.explode(t1, vals[1]):
                    res.extend(self.get_sub(t2, b, k, n))
        return res

    def e_Slice(self, st, n):
        res = []
        nodes = [x if x is not None else ast.Constant(value=None) for x in (n.lower, n.upper, n.step)]
        for t, v in self.eval_many(st, nodes):
            res.append((t, v if isinstance(v, Raise) else SliceV(*v)))
        return res

    def get_sub(self, st, b, k, node):
        r = self.c.load_sub(self, st, b, k, node)
        if r is not None:
            return r
        if isinstance(k, Union):
            out = []
            for t, k1 in self.explode(st, k):
                out.extend(self.get_sub(t, b, k1, node))
            return out
        if isinstance(b, Union):
            out = []
            for t, b1 in self.explode(st, b):
                out.extend(self.get_sub(t, b1, k, node))
            return out
        if isinstance(b, TupV):
            if isinstance(k, Const) and isinstance(k.v, int):
                if -len(b.items) <= k.v < len(b.items):
                    return [(st, b.items[k.v])]
                return [(st, UNK)]
            if isinstance(k, SliceV) and all(isinstance(x, Const) for x in (k.lo, k.hi, k.step)):
                return [(st, TupV(b.items[slice(k.lo.v, k.hi.v, k.step.v)]))]
            return [(st, mkunion(b.items) if b.items else UNK)]
        if isinstance(b, Const) and isinstance(b.v, str):
            try:
                if isinstance(k, Const):
                    return [(st, Const(b.v[k.v]))]
                if isinstance(k, SliceV) and all(isinstance(x, Const) for x in (k.lo, k.hi, k.step)):
                    return [(st, Const(b.v[slice(k.lo.v, k.hi.v, k.step.v)]))]
            except Exception:
                pass
            return [(st, UNK)]
        o = self.ho(st, b)
        if isinstance(o, SeqO):
            if isinstance(k, Const) and isinstance(k.v, int) and o.exact:
                if -len(o.items) <= k.v < len(o.items):
                    return [(st, o.items[k.v])]
                return [(st, Raise("IndexError"))]
            if isinstance(k, SliceV) and o.exact and all(isinstance(x, Const) for x in (k.lo, k.hi, k.step)):
                try:
                    return [(st, self.newlist(st, o.items[slice(k.lo.v, k.hi.v, k.step.v)]))]
                except Exception:
                    pass
            if isinstance(k, SliceV):
                return [(st, self.newlist(st, o.items, exact=False))]
            return [(st, mkunion(o.items) if o.items else UNK)]
        if isinstance(o, DictO):
            d = o.d()
            if k in d:
                return [(st, d[k])]
            if o.exact and isinstance(k, Const) and all(isinstance(x, Const) for x in d):
                return [(st, Raise("KeyError"))]
            vals = list(d.values()) + ([o.rest] if o.rest is not None else [])
            if isinstance(k, Const) and o.rest is not None:
                return [(st, o.rest)]
            return [(st, mkunion(vals) if vals else Unk(taint_of(k, st.heap)))]
        if isinstance(b, Ref):
            if self.c.data_root(b.root):
                if isinstance(k, Const) and isinstance(k.v, str):
                    return [(st, Ref(b.root, b.path + (f"[{k.v}]",), b.owned))]
                if isinstance(k, (Ref, Str)) and not (isinstance(k, Ref) and self.c.data_root(k.root)):
                    return [(st, Ref(b.root, b.path + (f"[{keystr(k)}]",), b.owned))]
                if isinstance(k, SliceV) or isinstance(k, Const):
                    return [(st, Ref(b.root, b.path, b.owned))]
                ko = self.ho(st, k)
                if isinstance(ko, SeqO):
                    return [(st, Ref(b.root, b.path, True))]
                return [(st, Ref(b.root, b.path, True))]
            if isinstance(k, Const):
                return [(st, Ref(b.root, b.path + (f"[{k.v}]",), b.owned))]
            if isinstance(k, SliceV):
                return [(st, Ref(b.root, b.path + ("[:]",), b.owned))]
            if isinstance(k, (Ref, Str)):
                return [(st, Ref(b.root, b.path + (f"[{keystr(k)}]",), b.owned))]
            return [(st, Ref(b.root, b.path + ("[*]",), True))]
        return [(st, Unk(taint_of(b, st.heap) | taint_of(k, st.heap)))]

    # comprehension
    def e_ListComp(self, st, n):
        return self.comp(st, n, "list", [n.elt])

    def e_SetComp(self, st, n):
        return self.comp(st, n, "set", [n.elt])

    def e_GeneratorExp(self, st, n):
        return self.comp(st, n, "list", [n.elt])

    def e_DictComp(self, st, n):
        return self.comp(st, n, "dict", [n.key, n.value])

    def comp(self, st, n, kind, elts):
        saved = dict(st.env)
        acc = [(st, [], True)]
        acc = self.comp_gen(acc, n.generators, elts)
        out = []
        for t, items, exact in acc:
            if isinstance(items, Raise):
                out.append((t, items))
                continue
            # restore targets
            for g in n.generators:
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        if x.id in saved:
                            t.env[x.id] = saved[x.id]
                        else:
                            t.env.pop(x.id, None)
            if kind == "dict":
                d = {}
                rest = None
                for k, v in items:
                    if isinstance(k, (Unk, Union)):
                        exact = False
                        rest = v if rest is None else mkunion([rest, v])
                    else:
                        d[k] = v
                out.append((t, self.newdict(t, d, exact, rest)))
            else:
                vals = [i[0] for i in items]
                if kind == "set":
                    vals = list(dict.fromkeys(vals))
                out.append((t, self.newlist(t, vals, kind, exact)))
        return out

    def comp_gen(self, acc, gens, elts):
        if not gens:
            res = []
            for t, items, exact in acc:
                if isinstance(items, Raise):
                    res.append((t, items, exact))
                    continue
                for t2, v in self.eval_many(t, elts):
                    if isinstance(v, Raise):
                        res.append((t2, v, exact))
                    else:
                        res.append((t2, items + [tuple(v)], exact))
            return res
        g = gens[0]
        res = []
        for t, items, exact in acc:
            if isinstance(items, Raise):
                res.append((t, items, exact))
                continue
            for t2, itv in self.eval(t, g.iter):
                if isinstance(itv, Raise):
                    res.append((t2, itv, exact))
                    continue
                for t3, itv1 in self.explode(t2, itv):
                    xs, ex = self.iter_items(t3, itv1)
                    if xs is None or not ex or len(xs) > MAXUNROLL:
                        xs, ex = [self.elem_of(t3, itv1, g)], False
                    cur = [(t3, items, exact and ex)]
                    for x in xs:
                        nxt = []
                        for u, its, exx in cur:
                            if isinstance(its, Raise):
                                nxt.append((u, its, exx))
                                continue
                            o = {}
                            for u2 in self.assign(u, g.target, x, o):
                                sts = [(u2, True)]
                                for cond in g.ifs:
                                    s2 = []
                                    for w, b in sts:
                                        if b:
                                            s2.extend(self.branch(w, cond, o))
                                        else:
                                            s2.append((w, b))
                                    sts = s2
                                for w, b in sts:
                                    if b:
                                        nxt.extend(self.comp_gen([(w, its, exx)], gens[1:], elts))
                                    else:
                                        nxt.append((w, its, exx))
                        cur = nxt
                        if len(cur) > self.maxp:
                            oks = [c for c in cur if not isinstance(c[1], Raise)]
                            if oks:
                                j = join_states([c[0] for c in oks])
                                allit = []
                                for c in oks:
                                    for i in c[1]:
                                        if i not in allit:
                                            allit.append(i)
                                cur = [(j, allit, False)]
                    res.extend(cur)
        return res

    # ------------------------------------------------------------ calls
    def e_Call(self, st, n):
        res = []
        f = n.func
        # super()
        if isinstance(f, ast.Name) and f.id == "super" and f.id not in st.env:
            return [(st, self.mksuper(st, n))]
        for t, fv in self.eval(st, f):
            if isinstance(fv, Raise):
                res.append((t, fv))
                continue
            argnodes = [unstar(a) for a in n.args]
            kwnodes = [k.value for k in n.keywords]
            for t2, vals in self.eval_many(t, argnodes + kwnodes):
                if isinstance(vals, Raise):
                    res.append((t2, vals))
                    continue
                args = []
                kw = {}
                for a, v in zip(n.args, vals):
                    if isinstance(a, ast.Starred):
                        items, exact = self.iter_items(t2, v)
                        if items is not None and exact:
                            args.extend(items)
                        else:
                            kw["@star"] = v
                    else:
                        args.append(v)
                for k, v in zip(n.keywords, vals[len(n.args):]):
                    if k.arg is None:
                        o = self.ho(t2, v)
                        if isinstance(o, DictO):
                            for kk, vv in o.items:
                                if isinstance(kk, Const) and isinstance(kk.v, str):
                                    kw[kk.v] = vv
                            if not o.exact:
                                kw["@dstar"] = o.rest if o.rest is not None else UNK
                        else:
                            kw["@dstar"] = v
                    else:
                        kw[k.arg] = v
                for t3, fv1 in self.explode(t2, fv):
                    res.extend(self.do_call(t3, fv1, args, kw, n))
        return res

    def mksuper(self, st, n):
        fr = st.frames[-1]
        # innermost method frame
        for f in reversed(st.frames):
            if f.fi.cls is not None:
                fr = f
                break
        selfname = fr.fi.params()[0] if fr.fi.params() else None
        selfv = fr.env.get(selfname, UNK)
        return SuperV(fr.fi.cls, selfv)

    def do_call(self, st, fv, args, kw, node):
        self.tick()
        r = self.c.call(self, st, fv, args, kw, node)
        if r is not None:
            return r
        if isinstance(fv, FuncV):
            if any("contextmanager" in d for d in fv.fi.decorators):
                return [(st, Ref("ctx:" + fv.fi.qualname))]
            if not self.c.inlined(self, st, fv.fi):
                return [(st, self.unk_of(st, args, kw, fv.selfv))]
            return self.call_function(st, fv.fi, args, kw, node, selfv=fv.selfv, fid=fv.fid, snap=fv.snap)
        if isinstance(fv, ClassV):
            return self.instantiate(st, fv.ci, args, kw, node)
        if isinstance(fv, ExtV):
            return self.ext_call(st, fv.name, args, kw, node)
        if isinstance(fv, MethV):
            return self.meth_call(st, fv.base, fv.name, args, kw, node)
        if isinstance(fv, Ref):
            # method call on an opaque object: path ends with .name
            if fv.path and fv.path[-1].startswith("."):
                return self.meth_call(st, Ref(fv.root, fv.path[:-1], fv.owned), fv.path[-1][1:], args, kw, node)
            return [(st, self.unk_of(st, args, kw, fv))]
        if isinstance(fv, Addr):
            o = self.ho(st, fv)
            if isinstance(o, ObjO) and o.cls is not None:
                m = self.p.find_method(o.cls, "__call__")
                if m is not None:
                    return self.call_function(st, m, args, kw, node, selfv=fv)
        return [(st, self.unk_of(st, args, kw, fv))]

    def unk_of(self, st, args, kw, extra=None):
        t = frozenset()
        for a in list(args) + list(kw.values()) + ([extra] if extra is not None else []):
            t |= taint_of(a, st.heap)
        return Unk(t)

    def instantiate(self, st, ci, args, kw, node):
        obj = self.newobj(st, ci)
        init = self.p.find_method(ci, "__init__")
        if init is None:
            # dataclass / plain
            fields = [s.target.id for c in reversed(self.p.mro(ci)) for s in c.node.body
                      if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
            if fields and any("dataclass" in ast.unparse(d) for d in ci.node.decorator_list):
                for f, a in zip(fields, args):
                    self.setattr_(st, obj, f, a)
                for k, v in kw.items():
                    if not k.startswith("@"):
                        self.setattr_(st, obj, k, v)
            else:
                for k, v in kw.items():
                    if not k.startswith("@"):
                        self.setattr_(st, obj, k, v)
            return [(st, obj)]
        out = []
        r = self.c.call(self, st, FuncV(init, obj), args, kw, node)
        if r is None:
            r = self.call_function(st, init, args, kw, node, selfv=obj)
        for t, v in r:
            out.append((t, v if isinstance(v, Raise) else obj))
        return out

    def ext_call(self, st, name, args, kw, node):
        if name.startswith("builtins."):
            r = self.builtin(st, name[9:], args, kw, node)
            if r is not None:
                return r
            return [(st, self.unk_of(st, args, kw))]
        if name in MUT_FUNCS:
            i = MUT_FUNCS[name]
            if i < len(args):
                self.mark_mut(st, args[i], name, node)
            return [(st, UNK)]
        if "out" in kw and name.startswith("numpy."):
            self.mark_mut(st, kw["out"], "out=", node)
            return [(st, kw["out"])]
        if name.startswith("numpy.") and name.endswith(".at") and args:
            self.mark_mut(st, args[0], "ufunc.at", node)
            return [(st, NONE)]
        if name in ALIAS_FUNCS and args:
            if isinstance(args[0], Ref):
                return [(st, args[0])]
            if isinstance(args[0], Addr):
                return [(st, Unk(taint_of(args[0], st.heap)))]
            return [(st, Unk(taint_of(args[0], st.heap)))]
        if name in COPY_FUNCS and args:
            a = args[0]
            if isinstance(a, Ref):
                if name == "numpy.array" and isinstance(kw.get("copy"), Const) and kw["copy"].v is False:
                    return [(st, a)]
                return [(st, Ref(a.root, a.path, True))]
            if isinstance(a, Addr):
                o = self.ho(st, a)
                if name.startswith("copy.") and isinstance(o, (SeqO, DictO, ObjO)):
                    return [(st, self.alloc(st, o))]
                if isinstance(o, SeqO):
                    return [(st, self.alloc(st, SeqO("list", o.items, o.exact, o.must)))]
            return [(st, Unk(taint_of(a, st.heap)))]
        if name == "os.path.join":
            parts = []
            for i, a in enumerate(args):
                if i:
                    parts.append("/")
                parts.extend(str_parts(a))
            return [(st, mkstr(parts))]
        return [(st, self.unk_of(st, args, kw))]

    def mark_mut(self, st, v, how, node):
        if isinstance(v, Ref) and not v.owned:
            self.c.mutate(self, st, v, how, node)
        elif isinstance(v, Addr):
            self.c.mutate(self, st, v, how, node)

    def builtin(self, st, name, args, kw, node):
        if name in ("list", "tuple", "set", "sorted", "frozenset", "reversed"):
            if not args:
                return [(st, TupV(()) if name == "tuple" else self.newlist(st, [], "set" if "set" in name else "list"))]
            items, exact = self.iter_items(st, args[0])
            if items is None:
                if isinstance(args[0], Ref):
                    if name in ("list", "tuple", "sorted"):
                        return [(st, Ref(args[0].root, args[0].path, True))]
                return [(st, self.newlist(st, [self.elem_of(st, args[0], node)], "set" if "set" in name else "list", False))]
            if name == "sorted" and exact and all(isinstance(i, Const) for i in items) and not kw:
                try:
                    items = sorted(items, key=lambda c: c.v)
                except Exception:
                    pass
            if name == "reversed":
                items = items[::-1]
            if "set" in name:
                items = list(dict.fromkeys(items))
            if name == "tuple":
                if exact:
                    return [(st, TupV(tuple(items)))]
                return [(st, self.newlist(st, items, "list", False))]
            o = self.ho(st, args[0])
            must = frozenset(items) if exact else (o.must if isinstance(o, SeqO) else frozenset())
            return [(st, self.alloc(st, SeqO("set" if "set" in name else "list", tuple(items), exact, must)))]
        if name == "dict":
            d, exact, rest = {}, True, None
            if args:
                o = self.ho(st, args[0])
                if isinstance(o, DictO):
                    d, exact, rest = o.d(), o.exact, o.rest
                else:
                    items, ex = self.iter_items(st, args[0])
                    if items is not None and all(isinstance(i, TupV) and len(i.items) == 2 for i in items):
                        d = {i.items[0]: i.items[1] for i in items}
                        exact = ex
                    else:
                        exact, rest = False, Unk(taint_of(args[0], st.heap))
            for k, v in kw.items():
                if k == "@dstar":
                    exact, rest = False, v
                elif k != "@star":
                    d[Const(k)] = v
            return [(st, self.newdict(st, d, exact, rest))]
        if name == "len" and args:
            items, exact = self.iter_items(st, args[0])
            if items is not None and exact:
                return [(st, Const(len(items)))]
            return [(st, Unk(taint_of(args[0], st.heap)))]
        if name == "range":
            if args and all(isinstance(a, Const) and isinstance(a.v, int) for a in args):
                r = range(*[a.v for a in args])
                if len(r) <= MAXUNROLL:
                    return [(st, TupV(tuple(Const(i) for i in r)))]
            return [(st, self.unk_of(st, args, kw))]
        if name == "enumerate" and args:
            items, exact = self.iter_items(st, args[0])
            start = 0
            if len(args) > 1 and isinstance(args[1], Const):
                start = args[1].v
            if items is not None and exact:
                return [(st, TupV(tuple(TupV((Const(i + start), x)) for i, x in enumerate(items))))]
            return [(st, self.newlist(st, [TupV((UNK, self.elem_of(st, args[0], node)))], "list", False))]
        if name == "zip" and args:
            its = [self.iter_items(st, a) for a in args]
            if all(i[0] is not None and i[1] for i in its):
                return [(st, TupV(tuple(TupV(tuple(x)) for x in zip(*[i[0] for i in its]))))]
            if any(i[0] is not None and i[1] for i in its) and all(
                (i[0] is not None and i[1]) or (isinstance(a, Ref) and not self.c.data_root(a.root)) for i, a in zip(its, args)
            ):
                # an opaque sequence zipped with a known one is taken to be as long
                n = min(len(i[0]) for i in its if i[0] is not None and i[1])
                cols = [i[0] if i[0] is not None and i[1] else
                        [Ref(a.root, a.path + (f"[{j}]",), a.owned) for j in range(n)] for i, a in zip(its, args)]
                return [(st, TupV(tuple(TupV(tuple(x)) for x in zip(*cols))))]
            return [(st, self.newlist(st, [TupV(tuple(self.elem_of(st, a, node) for a in args))], "list", False))]
        if name in ("isinstance",) and len(args) == 2:
            return [(st, self.isinst(st, args[0], args[1]))]
        if name == "hasattr" and len(args) == 2:
            o = self.ho(st, args[0])
            if isinstance(o, ObjO) and isinstance(args[1], Const) and o.root is None:
                if args[1].v in o.d():
                    return [(st, Const(True))]
                if o.cls is not None and (self.p.find_method(o.cls, args[1].v) or self.p.find_class_attr(o.cls, args[1].v)):
                    return [(st, Const(True))]
                return [(st, Unk())]
            if isinstance(args[0], (Const, Str)) and isinstance(args[1], Const):
                if args[0] == NONE or is_str(args[0]):
                    tv = args[0].v if isinstance(args[0], Const) else ""
                    return [(st, Const(hasattr(tv, args[1].v)))]
            if isinstance(o, SeqO) or isinstance(args[0], TupV):
                if isinstance(args[1], Const):
                    return [(st, Const(hasattr([], args[1].v)))]
            if isinstance(args[0], Ref) and isinstance(args[1], Const):
                return [(st, Pred(("hasattr", args[0], args[1])))]
            return [(st, Unk())]
        if name == "getattr" and len(args) >= 2 and isinstance(args[1], Const):
            return self.get_attr(st, args[0], args[1].v, node)
        if name == "setattr" and len(args) == 3 and isinstance(args[1], Const):
            return [(s, NONE) for s in self.put_attr(st, args[0], args[1].v, args[2], node)]
        if name == "str" and args:
            if isinstance(args[0], Const):
                return [(st, Const(str(args[0].v)))]
            if isinstance(args[0], (Str,)):
                return [(st, args[0])]
            return [(st, mkstr([args[0]]))]
        if name in ("int", "float", "bool", "abs", "round", "min", "max", "sum") and args and all(
            isinstance(a, Const) for a in args
        ) and not kw:
            try:
                return [(st, Const(getattr(builtins, name)(*[a.v for a in args])))]
            except Exception:
                return [(st, UNK)]
        if name in ("print", "open"):
            return [(st, self.unk_of(st, args, kw) if name == "open" else NONE)]
        if name == "type" and len(args) == 1:
            o = self.ho(st, args[0])
            if isinstance(o, ObjO) and o.cls is not None:
                return [(st, ClassV(o.cls))]
        if name in ("map", "filter") and len(args) >= 2:
            items, exact = self.iter_items(st, args[1])
            if name == "map" and items is not None and exact and len(args) == 2 and len(items) <= MAXUNROLL:
                cur = [(st, [])]
                for x in items:
                    nxt = []
                    for s, acc in cur:
                        for s2, v in self.do_call(s, args[0], [x], {}, node):
                            nxt.append((s2, acc + [v]) if not isinstance(v, Raise) else (s2, acc + [UNK]))
                    cur = nxt
                return [(s, self.newlist(s, acc)) for s, acc in cur]
        if name in ("any", "all") and args:
            items, exact = self.iter_items(st, args[0])
            if items is not None and exact:
                ks = [self.truth(st, i) for i in items]
                if name == "any" and any(k is True for k in ks):
                    return [(st, Const(True))]
                if name == "all" and any(k is False for k in ks):
                    return [(st, Const(False))]
                if all(k is not None for k in ks):
                    return [(st, Const(name == "all"))]
        return None

    def isinst(self, st, v, c):
        names = []
        cs = list(c.items) if isinstance(c, TupV) else [c]
        o = self.ho(st, v)
        for x in cs:
            if isinstance(x, ClassV):
                if isinstance(o, ObjO) and o.cls is not None:
                    if self.p.is_subclass(o.cls, x.ci):
                        return Const(True)
                    names.append(False)
                    continue
                if isinstance(v, (Const, Str, TupV)) or isinstance(o, (SeqO, DictO)):
                    names.append(False)
                    continue
                names.append(None)
            elif isinstance(x, ExtV):
                t = x.name
                if isinstance(v, Const):
                    py = {"builtins.str": str, "builtins.int": int, "builtins.float": float,
                          "builtins.bool": bool, "builtins.bytes": bytes, "builtins.tuple": tuple,
                          "builtins.list": list, "builtins.dict": dict}.get(t)
                    if py is not None:
                        if isinstance(v.v, py):
                            return Const(True)
                        names.append(False)
                        continue
                    if v.v is None or isinstance(v.v, (str, bool)):
                        names.append(False)
                        continue
                    names.append(None)
                elif isinstance(v, Str):
                    if t == "builtins.str":
                        return Const(True)
                    names.append(False)
                elif isinstance(v, TupV):
                    if t == "builtins.tuple":
                        return Const(True)
                    names.append(False)
                elif isinstance(o, SeqO):
                    if t == "builtins." + o.kind:
                        return Const(True)
                    names.append(False)
                elif isinstance(o, DictO):
                    if t == "builtins.dict":
                        return Const(True)
                    names.append(False)
                elif isinstance(o, ObjO):
                    names.append(False)
                else:
                    names.append(None)
            else:
                names.append(None)
        if names and all(n is False for n in names):
            return Const(False)
        if isinstance(v, Ref):
            return Pred(("isinst", v, c if not isinstance(c, Unk) else "?"))
        return Unk()

    def dict_update(self, st, addr, other, kw=None):
        o = st.heap[addr.n]
        d = o.d()
        exact, rest = o.exact, o.rest
        if other is not None:
            oo = self.ho(st, other)
            if isinstance(oo, DictO):
                d.update(oo.d())
                exact = exact and oo.exact
                rest = rest if oo.rest is None else (oo.rest if rest is None else mkunion([rest, oo.rest]))
            else:
                exact = False
                r = Unk(taint_of(other, st.heap))
                rest = r if rest is None else mkunion([rest, r])
        for k, v in (kw or {}).items():
            if not k.startswith("@"):
                d[Const(k)] = v
        st.heap[addr.n] = DictO(tuple(d.items()), exact, rest)

    def meth_call(self, st, base, name, args, kw, node):
        o = self.ho(st, base)
        if isinstance(o, SeqO):
            return self.seq_method(st, base, o, name, args, kw, node)
        if isinstance(o, DictO):
            return self.dict_method(st, base, o, name, args, kw, node)
        if is_str(base):
            return self.str_method(st, base, name, args, kw, node)
        if isinstance(base, SuperV):
            # super().__init__ of an external base
            return [(st, NONE)]
        if isinstance(base, Ref):
            if name in COPY_METHODS:
                return [(st, Ref(base.root, base.path, True))]
            if name in ALIAS_METHODS:
                return [(st, base)]
            if name in MUT_METHODS:
                if not base.owned:
                    self.c.mutate(self, st, base, f".{name}()", node)
                if name in ("setdefault", "pop"):
                    return [(st, Unk(taint_of(base)))]
                return [(st, NONE)]
            ip = kw.get("inplace")
            if name in INPLACE_KW_METHODS and isinstance(ip, Const) and ip.v is True:
                if not base.owned:
                    self.c.mutate(self, st, base, f".{name}(inplace=True)", node)
                return [(st, NONE)]
            if name == "items":
                return [(st, self.newlist(st, [TupV((Ref(base.root, base.path + (".keys[*]",), base.owned),
                                                     Ref(base.root, base.path + ("[*]",), base.owned)))], "list", False))]
            if name == "keys":
                return [(st, self.newlist(st, [Ref(base.root, base.path + (".keys[*]",), base.owned)], "list", False))]
            if name == "values":
                return [(st, self.newlist(st, [Ref(base.root, base.path + ("[*]",), base.owned)], "list", False))]
            if name == "get":
                return [(st, Ref(base.root, base.path + (f"[{keystr(args[0]) if args else '?'}]",), base.owned))]
            return [(st, self.unk_of(st, args, kw, base))]
        return [(st, self.unk_of(st, args, kw, base))]

    def seq_method(self, st, base, o, name, args, kw, node):
        must = frozenset(o.items) if o.exact else o.must
        if name in ("append", "add") and args:
            if o.kind == "set" and args[0] in o.items:
                return [(st, NONE)]
            st.heap[base.n] = SeqO(o.kind, o.items + (args[0],) if len(o.items) < 400 else o.items, o.exact, must | {args[0]})
            self.c.mutate(self, st, base, name, node)
            return [(st, NONE)]
        if name in ("extend", "update", "union") and args:
            items, exact = self.iter_items(st, args[0])
            if items is None:
                items, exact = [Unk(taint_of(args[0], st.heap))], False
            no = SeqO(o.kind, o.items + tuple(i for i in items if o.kind != "set" or i not in o.items),
                      o.exact and exact, must | (frozenset(items) if exact else frozenset()))
            if name == "union":
                return [(st, self.alloc(st, no))]
            st.heap[base.n] = no
            self.c.mutate(self, st, base, name, node)
            return [(st, NONE)]
        if name == "insert" and len(args) == 2:
            if isinstance(args[0], Const) and o.exact:
                l = list(o.items)
                l.insert(args[0].v, args[1])
                st.heap[base.n] = SeqO(o.kind, tuple(l), True)
            else:
                st.heap[base.n] = SeqO(o.kind, o.items + (args[1],), False, must | {args[1]})
            self.c.mutate(self, st, base, name, node)
            return [(st, NONE)]
        if name in ("remove", "discard") and args:
            if o.exact and args[0] in o.items:
                l = list(o.items)
                l.remove(args[0])
                st.heap[base.n] = SeqO(o.kind, tuple(l), True)
            else:
                st.heap[base.n] = SeqO(o.kind, o.items, False, must - {args[0]})
            self.c.mutate(self, st, base, name, node)
            return [(st, NONE)]
        if name == "pop":
            self.c.mutate(self, st, base, name, node)
            if o.exact and o.items:
                i = args[0].v if args and isinstance(args[0], Const) else (-1 if not args else None)
                if i is not None and -len(o.items) <= i < len(o.items):
                    l = list(o.items)
                    v = l.pop(i)
                    st.heap[base.n] = SeqO(o.kind, tuple(l), True)
                    return [(st, v)]
            st.heap[base.n] = SeqO(o.kind, o.items, False)
            return [(st, mkunion(o.items) if o.items else UNK)]
        if name in ("sort", "reverse"):
            self.c.mutate(self, st, base, name, node)
            if o.exact:
                its = list(o.items)
                if name == "reverse":
                    its.reverse()
                elif all(isinstance(i, Const) for i in its) and not kw:
                    try:
                        its.sort(key=lambda c: c.v)
                    except Exception:
                        pass
                st.heap[base.n] = SeqO(o.kind, tuple(its), True)
            return [(st, NONE)]
        if name == "clear":
            self.c.mutate(self, st, base, name, node)
            st.heap[base.n] = SeqO(o.kind, (), True)
            return [(st, NONE)]
        if name == "copy":
            return [(st, self.alloc(st, o))]
        if name in ("difference", "intersection") and args:
            items, exact = self.iter_items(st, args[0])
            if items is not None:
                keep = tuple(i for i in o.items if (i in items) == (name == "intersection"))
                return [(st, self.alloc(st, SeqO("set", keep, o.exact and exact)))]
        if name == "index" and args and o.exact and args[0] in o.items:
            return [(st, Const(o.items.index(args[0])))]
        return [(st, self.unk_of(st, args, kw, base))]

    def dict_method(self, st, base, o, name, args, kw, node):
        d = o.d()
        if name == "items":
            if o.exact:
                return [(st, TupV(tuple(TupV((k, v)) for k, v in o.items)))]
            its = [TupV((k, v)) for k, v in o.items]
            if o.rest is not None:
                its.append(TupV((UNK, o.rest)))
            return [(st, self.newlist(st, its, "list", False))]
        if name == "keys":
            its = [k for k, _ in o.items]
            if o.rest is not None:
                its.append(UNK)
            return [(st, self.newlist(st, its, "list", o.exact))]
        if name == "values":
            its = [v for _, v in o.items]
            if o.rest is not None:
                its.append(o.rest)
            return [(st, self.newlist(st, its, "list", o.exact))]
        if name == "get" and args:
            dflt = args[1] if len(args) > 1 else kw.get("default", NONE)
            if args[0] in d and o.exact:
                return [(st, d[args[0]])]
            if o.exact and isinstance(args[0], Const) and all(isinstance(k, Const) for k in d):
                return [(st, dflt)]
            return [(st, mkunion(list(d.values()) + ([o.rest] if o.rest is not None else []) + [dflt]))]
        if name == "update":
            self.dict_update(st, base, args[0] if args else None, kw)
            self.c.mutate(self, st, base, name, node)
            return [(st, NONE)]
        if name == "setdefault" and args:
            self.c.mutate(self, st, base, name, node)
            if args[0] in d:
                return [(st, d[args[0]])]
            v = args[1] if len(args) > 1 else NONE
            if isinstance(args[0], (Const, Ref, Str, TupV)):
                d[args[0]] = v
                st.heap[base.n] = DictO(tuple(d.items()), o.exact, o.rest)
            else:
                st.heap[base.n] = DictO(o.items, False, v if o.rest is None else mkunion([o.rest, v]))
            return [(st, v)]
        if name == "pop" and args:
            self.c.mutate(self, st, base, name, node)
            v = d.pop(args[0], None)
            if v is not None:
                st.heap[base.n] = DictO(tuple(d.items()), o.exact, o.rest)
                return [(st, v)]
            return [(st, args[1] if len(args) > 1 else (o.rest or UNK))]
        if name == "copy":
            return [(st, self.alloc(st, o))]
        if name == "clear":
            self.c.mutate(self, st, base, name, node)
            st.heap[base.n] = DictO((), True)
            return [(st, NONE)]
        return [(st, self.unk_of(st, args, kw, base))]

    def str_method(self, st, base, name, args, kw, node):
        if isinstance(base, Const) and all(isinstance(a, Const) for a in args) and not kw and name not in ("format", "join"):
            try:
                r = getattr(base.v, name)(*[a.v for a in args])
                if isinstance(r, list):
                    return [(st, self.newlist(st, [Const(x) for x in r]))]
                return [(st, Const(r))]
            except Exception:
                return [(st, UNK)]
        if name == "join" and args:
            items, exact = self.iter_items(st, args[0])
            if items is not None and exact:
                parts = []
                for i, x in enumerate(items):
                    if i:
                        parts.extend(str_parts(base))
                    parts.extend(str_parts(x))
                return [(st, mkstr(parts))]
            return [(st, mkstr([Unk(taint_of(args[0], st.heap) | taint_of(base))]))]
        if name == "format" and isinstance(base, Const):
            import string

            parts = []
            auto = 0
            try:
                for lit, fld, spec, conv in string.Formatter().parse(base.v):
                    parts.append(lit)
                    if fld is None:
                        continue
                    if fld == "":
                        v = args[auto] if auto < len(args) else UNK
                        auto += 1
                    elif fld.isdigit():
                        v = args[int(fld)] if int(fld) < len(args) else UNK
                    else:
                        v = kw.get(fld, self.unk_of(st, args, kw))
                    if isinstance(v, Const) and not spec:
                        parts.append(str(v.v))
                    elif isinstance(v, Str) and not spec:
                        parts.extend(v.parts)
                    else:
                        parts.append(v)
                return [(st, mkstr(parts))]
            except Exception:
                return [(st, self.unk_of(st, args, kw, base))]
        if name in ("strip", "rstrip", "lstrip", "lower", "upper", "replace", "encode"):
            return [(st, mkstr([Unk(taint_of(base, st.heap))]))] if name != "encode" else [(st, base)]
        return [(st, self.unk_of(st, args, kw, base))]


@dataclass(frozen=True)
class Pred:
    """undecided predicate usable as a boolean value"""
    key: tuple
    neg: bool = False


class _ModuleFunc:
    def __init__(self, module):
        self.module = module
        self.cls = None
        self.parent = None
        self.name = "<module>"
        self.node = module.tree
        self.decorators = []

    qualname = "<module>"

    def params(self):
        return []

    @property
    def relpath(self):
        return self.module.relpath


_OPS = {
    ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
    ast.Div: lambda a, b: a / b, ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b,
    ast.Pow: lambda a, b: a ** b, ast.BitAnd: lambda a, b: a & b, ast.BitOr: lambda a, b: a | b,
}
_EXTCONST = {"numpy.pi": 3.141592653589793, "math.pi": 3.141592653589793, "numpy.nan": float("nan"),
             "numpy.inf": float("inf")}


def norm_ext(n):
    if n == "np" or n.startswith("np."):
        return "numpy" + n[2:]
    return n


def is_str(v):
    return isinstance(v, Str) or (isinstance(v, Const) and isinstance(v.v, str))


def str_parts(v):
    if isinstance(v, Const):
        return [v.v if isinstance(v.v, str) else str(v.v)]
    if isinstance(v, Str):
        return list(v.parts)
    return [v]


def mkstr(parts):
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif isinstance(p, str) and p == "":
            continue
        else:
            out.append(p)
    if not out:
        return Const("")
    if len(out) == 1 and isinstance(out[0], str):
        return Const(out[0])
    return Str(tuple(out))


def keystr(k):
    if isinstance(k, Const):
        return str(k.v)
    if isinstance(k, Ref):
        return "$" + k.key()
    if isinstance(k, Str):
        return "".join(p if isinstance(p, str) else "{" + keystr(p) + "}" for p in k.parts)
    return "?"


def unstar(e):
    return e.value if isinstance(e, ast.Starred) else e


def handler_names(h):
    if h.type is None:
        return None
    if isinstance(h.type, ast.Tuple):
        return [ast.unparse(x).split(".")[-1] for x in h.type.elts]
    return [ast.unparse(h.type).split(".")[-1]]


_HC = {}


def has_call(s):
    k = id(s)
    r = _HC.get(k)
    if r is None:
        r = any(isinstance(n, (ast.Call, ast.Subscript)) for n in ast.walk(s))
        _HC[k] = r
    return r


_WS = {}


def walk_shallow(fnode):
    k = id(fnode)
    r = _WS.get(k)
    if r is None:
        from .project import walk_own

        r = [n for n in walk_own(fnode) if isinstance(n, (ast.Global,))]
        _WS[k] = r
    return r


def _simple_static(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.Await)):
            return False
        if isinstance(n, ast.Call):
            if not (isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple", "dict", "set", "range", "len", "float", "int", "str")):
                return False
    return True
