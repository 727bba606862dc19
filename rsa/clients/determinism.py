"""The same inputs give the same results: no result depends on unseeded random draws, on the order in which a directory or a
set happens to be listed, or on the moment of the run."""
import ast

from ..core import Result, where
from ..project import walk_own
from ..util import parent_map, short

# ---------------------------------------------------------------------------------------------------- random draws
NP_STATE = {"seed", "get_state", "set_state"}
NP_TYPES = {"default_rng", "RandomState", "Generator", "SeedSequence", "PCG64", "MT19937", "Philox", "SFC64", "PCG64DXSM", "BitGenerator"}
STD_DRAWS = {"random", "uniform", "randint", "randrange", "choice", "choices", "sample", "shuffle", "gauss", "normalvariate", "expovariate",
             "betavariate", "gammavariate", "lognormvariate", "triangular", "vonmisesvariate", "paretovariate", "weibullvariate", "getrandbits", "randbytes"}
ENTROPY = {"time.time", "time.time_ns", "time.monotonic", "time.perf_counter", "os.getpid", "os.urandom", "uuid.uuid1", "uuid.uuid4",
           "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today", "astropy.time.Time.now",
           "secrets.randbits", "secrets.token_bytes", "secrets.randbelow", "pandas.Timestamp.now", "pandas.Timestamp.today", "pandas.Timestamp.utcnow"}
CLOCK = {e for e in ENTROPY if not e.startswith(("os.", "uuid.", "secrets."))} | {"time.strftime", "time.localtime", "time.gmtime", "time.ctime", "time.process_time"}
# functions of other packages that seed the process-wide state before they draw
EXT_SEEDERS = {"rubin_scheduler.utils.uniform_sphere": "np", "rubin_scheduler.utils.sample_patch_on_sphere": "np"}
SEEDISH = ("seed", "random_seed", "random_state", "rng", "rng_seed")


def dotted(project, m, node, local=()):
    """dotted name of something outside the package, or None"""
    n = node
    while isinstance(n, ast.Attribute):
        n = n.value
    if not isinstance(n, ast.Name) or n.id in local:
        return None
    r = project.dotted(m, node)
    return r[1] if r is not None and r[0] == "ext" else None


def draw_kind(d):
    """'np' / 'std' for a draw from global random state"""
    if d is None:
        return None
    if d.startswith("numpy.random.") and d.count(".") == 2 and d.rsplit(".", 1)[1] not in NP_STATE | NP_TYPES:
        return "np"
    if d.startswith("random.") and d.count(".") == 1 and d.rsplit(".", 1)[1] in STD_DRAWS:
        return "std"
    return None


def seed_kind(d):
    return {"numpy.random.seed": "np", "numpy.random.set_state": "np", "random.seed": "std", "random.setstate": "std"}.get(d)


class Unit:
    """one function or method with its nested functions"""

    def __init__(self, project, f):
        self.f = f
        self.project = project
        self.m = f.module
        self.local, self.imported = set(), {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.arg):
                self.local.add(n.arg)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.local.add(n.id)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.imported[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom) and not n.level:
                for a in n.names:
                    self.imported[a.asname or a.name] = f"{n.module}.{a.name}"

    def dotted(self, node):
        d = dotted(self.project, self.m, node, self.local)
        if d is None:
            # imports made inside the function
            n, tail = node, []
            while isinstance(n, ast.Attribute):
                tail.append(n.attr)
                n = n.value
            if isinstance(n, ast.Name) and n.id in self.imported:
                return ".".join([self.imported[n.id]] + tail[::-1])
        return d


def scope_of(pm, node, top):
    """innermost function node around `node`"""
    p = pm.get(id(node))
    while p is not None and not isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
        p = pm.get(id(p))
    return p


def chain(pm, node):
    out = [node]
    while id(out[-1]) in pm:
        out.append(pm[id(out[-1])])
    return out


def before(pm, a, b):
    """statement of `a` runs on every path to `b` (both inside one function): a's statement is an earlier sibling of an ancestor of b"""
    up = {id(x) for x in chain(pm, b)}
    n = a
    while True:
        p = pm.get(id(n))
        if p is None:
            return False
        for fld in ("body", "orelse", "finalbody"):
            blk = getattr(p, fld, None)
            if isinstance(blk, list) and any(x is n for x in blk):
                i = next(k for k, x in enumerate(blk) if x is n)
                if any(id(x) in up for x in blk[i + 1:]):
                    return True
                if isinstance(p, ast.With) and fld == "body":
                    break
                if isinstance(p, ast.If):
                    # both branches seed?
                    other = p.orelse if fld == "body" else p.body
                    return "if", p, other
                return False
        if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            return False
        n = p


class Draws:
    def __init__(self, project, res):
        self.project, self.res = project, res
        self.units = [Unit(project, f) for f in project.all_functions()]
        self.byfunc = {id(u.f): u for u in self.units}
        self.seeder_cache = {}

    def seeds(self, u):
        out = []
        for n in ast.walk(u.f.node):
            if isinstance(n, ast.Call):
                d = u.dotted(n.func)
                k = seed_kind(d) or EXT_SEEDERS.get(d)
                if k:
                    out.append((k, n))
                    continue
                # a helper that seeds whenever it is called
                g = self.target(u, n.func)
                if g is not None and g is not u.f:
                    for k in self.seeder(g):
                        out.append((k, n))
        return out

    def target(self, u, fn):
        if isinstance(fn, ast.Name) and fn.id not in u.local:
            r = self.project.resolve(u.m, fn.id)
            return r[1] if r is not None and r[0] == "func" else None
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and u.f.cls is not None and u.f.params() and fn.value.id == u.f.params()[0]:
            return self.project.find_method(u.f.cls, fn.attr)
        return None

    def seeder(self, g):
        if id(g) not in self.seeder_cache:
            self.seeder_cache[id(g)] = set()
            v = self.byfunc.get(id(g))
            out = set()
            for st in g.node.body:
                if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and v is not None:
                    k = seed_kind(v.dotted(st.value.func))
                    h = self.target(v, st.value.func)
                    out |= {k} if k else self.seeder(h) if h is not None else set()
            self.seeder_cache[id(g)] = out
        return self.seeder_cache[id(g)]

    def seeded(self, u, node, kind, seeds, depth=0):
        """is the global generator seeded on every path before `node` inside u, or before every call of u"""
        pm = parent_map(u.m)
        own = scope_of(pm, node, u.f.node)
        for k, s in seeds:
            if k != kind:
                continue
            sc = scope_of(pm, s, u.f.node)
            if sc is own or sc is u.f.node:
                b = before(pm, s, node)
                while isinstance(b, tuple):
                    _, iff, other = b
                    if any(k2 == kind and any(x is y for st in other for y in ast.walk(st)) for k2, x in seeds):
                        b = before(pm, iff, node)
                        continue
                    b = optional_seed(u, iff, s)
                    b = before(pm, iff, node) if b else False
                if b:
                    return True
        if own is not u.f.node and isinstance(own, ast.FunctionDef):
            # nested helper: every call of it comes after a seed
            uses = [n for n in ast.walk(u.f.node) if isinstance(n, ast.Name) and n.id == own.name and isinstance(n.ctx, ast.Load)]
            uses = [x for x in uses if scope_of(pm, x, u.f.node) is not own]
            if uses and all(self.seeded(u, x, kind, seeds, depth) for x in uses):
                return True
        if depth > 3:
            return False
        sites = self.sites(u)
        if sites is None or not sites:
            return False
        return all(self.seeded(v, c, kind, self.seeds(v), depth + 1) for v, c in sites)

    def sites(self, u):
        """places that call u, None if it can be called from outside the package: private functions and plugged-in objects only"""
        f = u.f
        if f.name == "__call__" and f.cls is not None:
            pkg = u.m.name.rsplit(".", 1)[0]
            out = []
            for v in self.units:
                if v.m.name.rsplit(".", 1)[0] != pkg:
                    continue
                params = set(v.f.all_params())
                loops = {n.target.id for n in ast.walk(v.f.node) if isinstance(n, ast.For) and isinstance(n.target, ast.Name)
                         and isinstance(n.iter, ast.Name) and n.iter.id in params}
                for n in ast.walk(v.f.node):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in params | loops:
                        out.append((v, n))
            return out
        if f.cls is None and f.name.startswith("_"):
            return [(v, n) for v in self.units for n in ast.walk(v.f.node)
                    if isinstance(n, ast.Name) and n.id == f.name and isinstance(n.ctx, ast.Load) and v.m is u.m]
        if f.cls is not None and not f.name.startswith("__"):
            # steps of a larger calculation are judged where the class itself calls them
            fam = {id(g) for c in self.project.all_classes() if f.cls in self.project.mro(c) or c in self.project.mro(f.cls) for g in c.methods.values()}
            return [(v, n) for v in self.units if v is not u and id(v.f) in fam and v.f.params() for n in ast.walk(v.f.node)
                    if isinstance(n, ast.Attribute) and n.attr == f.name and isinstance(n.value, ast.Name) and n.value.id == v.f.params()[0]]
        return None

    def unit(self, u):
        res, f = self.res, u.f
        seeds = self.seeds(u)
        pm = parent_map(u.m)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr == "random" and not isinstance(pm.get(id(n)), ast.Attribute) and u.dotted(n) == "numpy.random" \
                    or isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in u.local and not isinstance(pm.get(id(n)), (ast.Attribute, ast.Call)) and u.dotted(n) in ("random", "numpy.random"):
                res.add("draw-without-seed", where(f), "generator " + short(n), f"{short(n)} is used as generator: what is drawn from it comes from the process-wide random state", n.lineno)
            if not isinstance(n, ast.Call):
                continue
            d = u.dotted(n.func)
            k = draw_kind(d)
            if k:
                res.count("draws_from_global_state")
                res.sample("draws_from_global_state", f"{where(f)}: {short(n)}")
                if not self.seeded(u, n, k, seeds):
                    other = self.elsewhere(u, k)
                    res.add("draw-without-seed", where(f), short(n.func),
                            f"{short(n)} draws from the process-wide random state, which {'is seeded only in ' + other + ', so the result depends on whatever drew from it in between' if other else 'nothing seeds first'}: "
                            "the same inputs give another result on the next run", n.lineno)
            elif d is not None and d.startswith("numpy.random.") and d.rsplit(".", 1)[1] in NP_TYPES or d == "random.Random":
                res.count("generators_made")
                self.generator(u, n)
            elif d in ("numpy.random.seed", "random.seed"):
                res.count("global_state_seeded")
                self.generator(u, n)
            elif isinstance(n.func, ast.Attribute) and n.func.attr == "rvs":
                res.count("scipy_draws")
                if not any(k.arg == "random_state" for k in n.keywords) and not self.seeded(u, n, "np", seeds):
                    res.add("draw-without-seed", where(f), short(n.func), f"{short(n)} draws from the process-wide random state, which nothing seeds first", n.lineno)
            elif isinstance(n.func, ast.Attribute) and n.func.attr == "sample" and any(k.arg in ("n", "frac") for k in n.keywords) \
                    and not any(k.arg == "random_state" for k in n.keywords) and not self.seeded(u, n, "np", seeds):
                res.add("draw-without-seed", where(f), short(n.func), f"{short(n)} draws rows from the process-wide random state, which nothing seeds first", n.lineno)
            elif isinstance(n.func, ast.Name) and n.func.id == "hash" and "hash" not in u.local and f.name not in ("__hash__", "__eq__") \
                    and project_builtin(self.project, u.m, "hash"):
                res.count("hashes")
                res.add("hash-of-process", where(f), short(n), f"{short(n)}: the hash of a text differs from process to process, so what is made from it does too", n.lineno)
            else:
                self.passed(u, n)
        self.unused_seed(u)

    def passed(self, u, n):
        """a function with a seed option calls another that has one: the seed is handed on"""
        f = u.f
        opts = [p for p in f.all_params() if p in SEEDISH or p.endswith("_seed")]
        if not opts or any(k.arg is None for k in n.keywords) or any(isinstance(a, ast.Starred) for a in n.args):
            return
        r = self.project.dotted(f.module, n.func) if not isinstance(n.func, ast.Name) or n.func.id not in u.local else None
        g = r[1] if r is not None and r[0] == "func" else self.project.find_method(r[1], "__init__") if r is not None and r[0] == "class" else self.target(u, n.func)
        if u.dotted(n.func) in EXT_SEEDERS:
            self.res.count("seeds_handed_on")
            if not any(k.arg == "seed" for k in n.keywords) and len(n.args) < 2:
                self.res.add("seed-not-handed-on", where(f), short(n.func), f"{short(n)} leaves out 'seed': whatever {opts[0]!r} is asked for, it draws the same numbers", n.lineno)
            return
        if g is None:
            return
        names = [p for p in g.all_params() if p in SEEDISH or p.endswith("_seed")]
        if not names:
            return
        self.res.count("seeds_handed_on")
        pos = g.params()[1:] if g.cls is not None and not g.is_static else g.params()
        given = {k.arg for k in n.keywords} | set(pos[:len(n.args)])
        if not given & set(names):
            self.res.add("seed-not-handed-on", where(f), short(n.func), f"{short(n)} leaves out {names[0]!r}: whatever {opts[0]!r} is asked for, it draws the same numbers", n.lineno)

    def elsewhere(self, u, kind):
        if u.f.cls is None:
            return None
        for c in self.project.mro(u.f.cls):
            for g in c.methods.values():
                v = self.byfunc.get(id(g))
                if v is not None and v is not u and any(k == kind for k, _ in self.seeds(v)):
                    return where(g)
        return None

    def generator(self, u, n):
        """what a generator (or the global state) is seeded with"""
        res, f = self.res, u.f
        args = list(n.args) + [k.value for k in n.keywords]
        if not args or (len(args) == 1 and isinstance(args[0], ast.Constant) and args[0].value is None):
            res.add("generator-without-seed", where(f), short(n), f"{short(n)} is seeded by the operating system: what is drawn from it differs from run to run", n.lineno)
            return
        for a in args:
            for x in ast.walk(a):
                if isinstance(x, ast.Call):
                    d = u.dotted(x.func)
                    if d in ENTROPY or (isinstance(x.func, ast.Name) and x.func.id in ("hash", "id") and x.func.id not in u.local):
                        res.add("generator-without-seed", where(f), short(n), f"{short(n)} is seeded from {short(x)}, which differs from run to run", n.lineno)
        # kept on the object and made once from this call's own seed: later calls' seeds are not used
        pm = parent_map(u.m)
        st = pm.get(id(n))
        if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Attribute) and f.cls is not None and f.name not in ("__init__", "__new__"):
            params = set(f.all_params()[1:])
            used = {x.id for a in args for x in ast.walk(a) if isinstance(x, ast.Name)} & params
            if used:
                guard = [p for p in chain(pm, st)[1:] if isinstance(p, ast.If) and mentions_attr(p.test, st.targets[0].attr)]
                if guard:
                    o = sorted(used)[0]
                    res.add("seed-of-first-call-only", where(f), short(n), f"{ast.unparse(st.targets[0])} is made from {o!r} on the first call only: "
                            f"later calls draw on from there whatever {o!r} they are given", n.lineno)

    def unused_seed(self, u):
        """a seed option that reaches no generator while the function draws from one made otherwise"""
        f = u.f
        opts = [p for p in f.all_params() if p in SEEDISH or p.endswith("_seed")]
        if not opts:
            return
        self.res.count("seed_options")
        made = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and ((u.dotted(n.func) or "").startswith("numpy.random.")
                and (u.dotted(n.func).rsplit(".", 1)[1] in NP_TYPES | {"seed"}) or u.dotted(n.func) in ("random.Random", "random.seed"))]
        if not made:
            return
        # names that come from the option
        derived = set(opts)
        for _ in range(3):
            for st in ast.walk(f.node):
                if isinstance(st, ast.Assign) and {x.id for x in ast.walk(st.value) if isinstance(x, ast.Name)} & derived:
                    for t in st.targets:
                        derived |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name)} if not isinstance(t, ast.Attribute) else {t.attr}
        for n in made:
            used = {x.id for a in list(n.args) + [k.value for k in n.keywords] for x in ast.walk(a) if isinstance(x, ast.Name)} | \
                   {x.attr for a in list(n.args) + [k.value for k in n.keywords] for x in ast.walk(a) if isinstance(x, ast.Attribute)}
            if used & derived or not (n.args or n.keywords):
                continue
            pm = parent_map(u.m)
            if any(isinstance(p, (ast.If, ast.IfExp)) and {x.id for x in ast.walk(p.test) if isinstance(x, ast.Name)} & derived for p in chain(pm, n)):
                continue
            self.res.add("seed-not-used", where(f), short(n), f"{short(n)} does not use option {opts[0]!r}: whatever the {opts[0]} asked for, the same numbers are drawn", n.lineno)


def mentions_attr(test, attr):
    return any(isinstance(x, ast.Attribute) and x.attr == attr or isinstance(x, ast.Constant) and x.value == attr for x in ast.walk(test))


def optional_seed(u, iff, s):
    """`if seed is not None: np.random.seed(seed)`: leaving it unset is the caller's choice"""
    params = set(u.f.all_params())
    names = {x.id for x in ast.walk(iff.test) if isinstance(x, ast.Name)}
    used = {x.id for a in s.args for x in ast.walk(a) if isinstance(x, ast.Name)}
    return bool(names & used & params)


def project_builtin(project, m, name):
    r = project.resolve(m, name)
    return r is not None and r[0] == "builtin"


def check_draws(project, tier):
    res = Result()
    an = Draws(project, res)
    for u in an.units:
        res.count("functions")
        an.unit(u)
    res.guard("functions", 1000)
    return res


# ---------------------------------------------------------------------------------------------------- arbitrary order
LISTING = {"glob.glob": "list", "glob.iglob": "list", "os.listdir": "list", "os.scandir": "list", "os.walk": "walk"}
LISTING_METHODS = {"glob", "rglob", "iterdir"}
SET_OPS = {"union", "intersection", "difference", "symmetric_difference"}
KEEPS = {"list", "tuple", "reversed", "iter", "filter", "map", "enumerate", "zip", "copy", "deepcopy"}
NP_KEEPS = {"array", "asarray", "asanyarray", "concatenate", "hstack", "vstack", "stack", "append", "ravel", "atleast_1d", "fromiter", "repeat", "tile"}
LOGLIKE = {"print", "warn", "warning", "warnings", "debug", "info", "error", "exception", "critical", "log", "write_log", "deprecated", "fail"}


class Any_:
    """a value in arbitrary order: kind 'set' | 'list' | 'arr' | 'dict' | 'walk' | 'text'; elem: value of one element"""
    __slots__ = ("kind", "src", "elem")

    def __init__(self, kind, src, elem=None):
        self.kind, self.src, self.elem = kind, src, elem

    def __eq__(self, o):
        return isinstance(o, Any_) and (o.kind, o.src) == (self.kind, self.src)

    def __hash__(self):
        return hash((self.kind, self.src))

    def as_(self, kind):
        return Any_(kind, self.src, self.elem)


class Item:
    """one element of something in arbitrary order, or its running number ('idx')"""
    __slots__ = ("kind", "src")

    def __init__(self, kind, src):
        self.kind, self.src = kind, src

    def __eq__(self, o):
        return isinstance(o, Item) and (o.kind, o.src) == (self.kind, self.src)

    def __hash__(self):
        return hash(("item", self.kind, self.src))


class Multi:
    """a tuple of values"""
    __slots__ = ("vals",)

    def __init__(self, vals):
        self.vals = vals


def either(a, b):
    return a if a is not None else b


class Order:
    """walk of one function; env: name or 'self.attr' text -> value"""

    def __init__(self, an, f, depth=0):
        self.an, self.f, self.depth = an, f, depth
        self.u = an.draws.byfunc.get(id(f)) or Unit(an.project, f)
        self.me = f.params()[0] if f.cls is not None and f.params() and not f.is_static else None
        self.env = {}
        self.loops = []
        self.ret = None
        self.quiet = depth > 0
        self.pm = parent_map(f.module)

    def run(self):
        self.block(self.f.node.body)
        return self.ret

    # ---- reports
    def report(self, rule, node, v, why):
        if not self.quiet:
            self.an.res.add(rule, where(self.f), short(node), f"{short(node)}: {why} (order of {v.src})", getattr(node, "lineno", None))

    def message(self, node):
        """inside a log call or a raised error"""
        for p in chain(self.pm, node):
            if isinstance(p, (ast.Raise, ast.Assert)):
                return True
            if isinstance(p, ast.Call):
                n = p.func.attr if isinstance(p.func, ast.Attribute) else getattr(p.func, "id", "")
                if n in LOGLIKE or n.endswith(("Error", "Exception", "Warning")):
                    return True
            if isinstance(p, ast.stmt):
                if isinstance(p, ast.Assign) and all(isinstance(t, ast.Name) for t in p.targets):
                    names = {t.id for t in p.targets}
                    uses = [n for n in ast.walk(self.f.node) if isinstance(n, ast.Name) and n.id in names and isinstance(n.ctx, ast.Load)]
                    return bool(uses) and all(self.message_use(x) for x in uses)
                return False
        return False

    def message_use(self, node):
        for p in chain(self.pm, node):
            if isinstance(p, (ast.Raise, ast.Assert)):
                return True
            if isinstance(p, ast.Call):
                n = p.func.attr if isinstance(p.func, ast.Attribute) else getattr(p.func, "id", "")
                if n in LOGLIKE or n.endswith(("Error", "Exception", "Warning")):
                    return True
            if isinstance(p, ast.stmt):
                return isinstance(p, ast.AugAssign)
        return False

    # ---- statements
    def block(self, body):
        """True if the block always leaves"""
        for st in body:
            if self.stmt(st):
                return True
        return False

    def key(self, n):
        if isinstance(n, ast.Name):
            return n.id
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == self.me:
            return "self." + n.attr
        return None

    def get(self, k):
        if k in self.env:
            return self.env[k]
        if k is not None and k.startswith("self.") and self.f.cls is not None:
            return self.an.attr(self.f.cls, k[5:], self.f)
        return None

    def put(self, k, v):
        if k is not None:
            self.env[k] = v

    def bind(self, t, v, value=None):
        if isinstance(t, (ast.Tuple, ast.List)):
            parts = value.elts if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) else None
            for i, e in enumerate(t.elts):
                if parts is not None:
                    self.bind(e, self.ev(parts[i]), parts[i])
                elif isinstance(v, tuple) and i < len(v):
                    self.bind(e, v[i])
                elif isinstance(v, Multi):
                    self.bind(e, v.vals[i] if i < len(v.vals) else None)
                else:
                    if isinstance(v, Any_) and v.kind in ("list", "set") and not isinstance(e, ast.Starred):
                        self.report("place-in-arbitrary-order", value if value is not None else t, v, "which element is which depends on the order")
                    self.bind(e, v if isinstance(v, Item) else None)
            return
        if isinstance(t, ast.Starred):
            return self.bind(t.value, v)
        if isinstance(t, ast.Subscript):
            i = self.ev(t.slice)
            b = self.get(self.key(t.value))
            if isinstance(i, Item):
                # filled per element of something in arbitrary order
                k = self.key(t.value)
                if k is not None and b is None:
                    self.put(k, Any_("arr" if i.kind == "idx" else "dict", i.src))
            return
        if isinstance(v, Item) and isinstance(t, ast.Name) or isinstance(v, (Any_, tuple)) or self.key(t) is not None:
            self.put(self.key(t), v)

    def stmt(self, st):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return False
        if isinstance(st, ast.Assign):
            v = self.ev(st.value)
            for t in st.targets:
                self.bind(t, v, st.value)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.bind(st.target, self.ev(st.value), st.value)
        elif isinstance(st, ast.AugAssign):
            v = self.ev(st.value)
            k = self.key(st.target)
            old = self.get(k) if k else None
            if isinstance(st.op, ast.Add):
                listy = isinstance(st.value, (ast.List, ast.ListComp, ast.Tuple))
                if self.loops and (listy or isinstance(old, Any_) and old.kind == "list"):
                    self.put(k, Any_("list", self.loops[-1]))
                elif isinstance(v, Any_) and v.kind != "text":
                    self.put(k, v.as_("list"))
                elif self.loops and self.texty(st.value) and self.depends(st.value):
                    if not self.message(st) and not self.only_messages(k):
                        self.report("text-in-arbitrary-order", st, Item("x", self.loops[-1]), "text put together piece by piece in arbitrary order")
        elif isinstance(st, ast.Expr):
            self.ev(st.value)
        elif isinstance(st, ast.Return):
            v = self.ev(st.value) if st.value is not None else None
            if isinstance(v, (Any_, Multi)):
                self.ret = either(self.ret, v)
            if isinstance(v, Item) and v.kind == "el" and self.loops and v.src in self.loops:
                self.first(st, v)
            return True
        elif isinstance(st, (ast.Raise, ast.Continue)):
            for c in ast.iter_child_nodes(st):
                if isinstance(c, ast.expr):
                    self.ev(c)
            return True
        elif isinstance(st, ast.Break):
            return True
        elif isinstance(st, ast.If):
            self.ev(st.test)
            single = self.single(st.test)
            env = dict(self.env)
            self.drop(single[0])
            a = self.block(st.body)
            env_a = self.env
            self.env = dict(env)
            self.drop(single[1])
            b = self.block(st.orelse)
            env_b = self.env
            if a and not b:
                self.env = env_b
            elif b and not a:
                self.env = env_a
            elif a and b:
                return True
            else:
                self.env = {k: either(env_a.get(k), env_b.get(k)) for k in set(env_a) | set(env_b)}
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            self.loop(st)
        elif isinstance(st, ast.While):
            self.ev(st.test)
            before_ = dict(self.env)
            self.block(st.body)
            self.env = {k: either(self.env.get(k), before_.get(k)) for k in set(self.env) | set(before_)}
            self.block(st.orelse)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for it in st.items:
                v = self.ev(it.context_expr)
                if it.optional_vars is not None:
                    self.bind(it.optional_vars, v)
            return self.block(st.body)
        elif isinstance(st, ast.Try):
            self.block(st.body)
            env = dict(self.env)
            for h in st.handlers:
                self.env = dict(env)
                if not self.block(h.body):
                    env = {k: either(env.get(k), self.env.get(k)) for k in set(env) | set(self.env)}
            self.env = env
            self.block(st.orelse)
            self.block(st.finalbody)
        elif isinstance(st, ast.Delete):
            pass
        else:
            for c in ast.iter_child_nodes(st):
                if isinstance(c, ast.expr):
                    self.ev(c)
        return False

    def loop(self, st):
        v = self.ev(st.iter)
        src, elem = self.elements(st.iter, v)
        self.bind(st.target, elem)
        if src is not None:
            self.an.res.count("loops_in_arbitrary_order")
            self.loops.append(src)
            self.chosen(st, src)
        before_ = dict(self.env)
        for _ in range(2):
            self.block(st.body)
            self.env = {k: either(self.env.get(k), before_.get(k)) for k in set(self.env) | set(before_)}
        if src is not None:
            self.loops.pop()
        self.block(st.orelse)

    def elements(self, it, v):
        """(source of the arbitrary order, value of the loop variable)"""
        if isinstance(v, tuple) and len(v) == 2 and v[0] == "enum":
            return v[1].src, (Item("idx", v[1].src), Item("el", v[1].src))
        if isinstance(v, tuple) and len(v) == 2 and v[0] == "items":
            return v[1].src, (Item("el", v[1].src), None)
        if isinstance(v, tuple) and len(v) == 2 and v[0] == "range":
            return v[1].src, Item("idx", v[1].src)
        if isinstance(v, Any_) and v.kind == "walk":
            return v.src, (Item("el", v.src), Any_("list", v.src), Any_("list", v.src))
        if isinstance(v, Any_) and v.kind == "plain":
            return None, v.elem
        if isinstance(v, Any_) and v.kind in ("set", "list", "arr", "dict"):
            return v.src, v.elem if v.elem is not None else Item("el", v.src)
        return None, None

    def chosen(self, st, src):
        """a loop over something in arbitrary order that stops at, and keeps, the first element that will do"""
        names = {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
        grew = True
        while grew:
            grew = False
            for n in ast.walk(st):
                if isinstance(n, ast.Assign) and {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)} & names:
                    new = {x.id for t in n.targets for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - names
                    if new:
                        names |= new
                        grew = True
        for b in ast.walk(st):
            if not isinstance(b, (ast.Break, ast.Return)):
                continue
            up = chain(self.pm, b)
            inner = next((p for p in up if isinstance(p, (ast.For, ast.While))), None)
            if isinstance(b, ast.Break) and inner is not st:
                continue
            if isinstance(b, ast.Return):
                keeps = b.value is not None and {x.id for x in ast.walk(b.value) if isinstance(x, ast.Name)} & names
            else:
                after = self.loads_after(st)
                keeps = names & after
            if not keeps:
                continue
            tests = []
            for p in up[1:]:
                if p is st:
                    break
                if isinstance(p, ast.If):
                    tests.append(p.test)
            if any(self.unique(t, names) for t in tests):
                continue
            self.report("first-of-arbitrary-order", st.iter, Item("x", src), f"the loop keeps the first element that will do ({', '.join(sorted(keeps))}): which one that is depends on the order")

    def loads_after(self, st):
        end = max((getattr(n, "lineno", 0) for n in ast.walk(st)), default=0)
        out = set()
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.lineno > end:
                out.add(n.id)
        for n in st.orelse:
            out |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
        return out

    @staticmethod
    def unique(test, names):
        """an equality with something from outside the loop identifies one element"""
        for c in ast.walk(test):
            if isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], ast.Eq):
                l = {x.id for x in ast.walk(c.left) if isinstance(x, ast.Name)} & names
                r = {x.id for x in ast.walk(c.comparators[0]) if isinstance(x, ast.Name)} & names
                if bool(l) != bool(r):
                    return True
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("samefile", "array_equal"):
                return True
        return False

    def only_messages(self, k):
        uses = [n for n in ast.walk(self.f.node) if isinstance(n, ast.Name) and n.id == k and isinstance(n.ctx, ast.Load)]
        return bool(uses) and all(self.message_use(x) for x in uses)

    def texty(self, n):
        return any(isinstance(x, ast.JoinedStr) or isinstance(x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(n)) \
            and not isinstance(n, (ast.Subscript, ast.Call, ast.Compare))

    def depends(self, n):
        return any(isinstance(x, ast.Name) and isinstance(self.env.get(x.id), Item) for x in ast.walk(n))

    def first(self, st, v):
        pass  # judged by chosen()

    # ---- one-element guards
    def single(self, test):
        """names known to hold at most one element where the test is true / false"""
        yes, no = set(), set()
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            n, y = self.single(test.operand)
            return y, n
        if isinstance(test, ast.BoolOp):
            for t in test.values:
                y, n = self.single(t)
                if isinstance(test.op, ast.And):
                    yes |= y
                else:
                    no |= n
            return yes, no
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value == 1 \
                and isinstance(test.left, ast.Call) and test.left.args and isinstance(test.left.args[0], ast.Call) and test.left.args[0].args:
            # len(set(x)) == 1: all elements alike
            k = self.key(test.left.args[0].args[0])
            if k is not None and isinstance(test.ops[0], ast.Eq):
                yes.add(k)
            elif k is not None and isinstance(test.ops[0], (ast.NotEq, ast.Gt)):
                no.add(k)
            return yes, no
        k = self.lenof(test)
        if k is not None:
            no.add(k)     # not len(x): empty
        elif self.key(test) is not None and isinstance(self.get(self.key(test)), Any_):
            no.add(self.key(test))
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            l, op, r = test.left, test.ops[0], test.comparators[0]
            k = self.lenof(l)
            if k is not None and isinstance(r, ast.Constant) and isinstance(r.value, int):
                n = r.value
                if isinstance(op, ast.Eq) and n <= 1 or isinstance(op, ast.Lt) and n <= 2 or isinstance(op, ast.LtE) and n <= 1:
                    yes.add(k)
                if isinstance(op, ast.NotEq) and n <= 1 or isinstance(op, ast.Gt) and n <= 1 or isinstance(op, ast.GtE) and n <= 2:
                    no.add(k)
        return yes, no

    def lenof(self, n):
        if isinstance(n, ast.Call) and n.args and (isinstance(n.func, ast.Name) and n.func.id == "len" or isinstance(n.func, ast.Attribute) and n.func.attr == "size"):
            return self.key(n.args[0])
        if isinstance(n, ast.Attribute) and n.attr == "size":
            return self.key(n.value)
        return None

    def drop(self, names):
        for k in names:
            self.env[k] = None

    # ---- expressions
    def ev(self, n):
        if n is None or isinstance(n, ast.Constant):
            return None
        k = self.key(n)
        if k is not None:
            return self.get(k)
        m = getattr(self, "ev_" + n.__class__.__name__, None)
        if m is not None:
            return m(n)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c)
        return None

    def ev_BoolOp(self, n):
        env = dict(self.env)
        out = None
        for v in n.values:
            out = either(out, self.ev(v))
            yes, no = self.single(v)
            self.drop(yes if isinstance(n.op, ast.And) else no)
        self.env = env
        return out

    def ev_Lambda(self, n):
        return None

    def ev_NamedExpr(self, n):
        v = self.ev(n.value)
        self.bind(n.target, v, n.value)
        return v

    def ev_IfExp(self, n):
        self.ev(n.test)
        yes, no = self.single(n.test)
        env = dict(self.env)
        self.drop(yes)
        a = self.ev(n.body)
        self.env = dict(env)
        self.drop(no)
        b = self.ev(n.orelse)
        self.env = env
        return either(a, b)

    def ev_Set(self, n):
        for e in n.elts:
            self.ev(e)
        if len(n.elts) < 2 or all(isinstance(e, ast.Constant) and isinstance(e.value, (int, bool)) for e in n.elts):
            return None
        return Any_("set", short(n, 40))

    def comp(self, n, elts):
        saved = dict(self.env)
        src, vals, self.ev_c = None, [], None
        pushed = 0
        for g in n.generators:
            v = self.ev(g.iter)
            s, elem = self.elements(g.iter, v)
            self.bind(g.target, elem)
            if s is not None:
                src = src or s
                self.loops.append(s)
                pushed += 1
            for t in g.ifs:
                self.ev(t)
        for e in elts:
            vals.append(self.ev(e))
        for _ in range(pushed):
            self.loops.pop()
        self.env = saved
        return src, vals

    def ev_ListComp(self, n):
        src, vals = self.comp(n, [n.elt])
        if src is None and isinstance(vals[0], Any_):
            return Any_("plain", vals[0].src, vals[0])
        return Any_("list", src, vals[0] if isinstance(vals[0], Any_) else None) if src else None

    ev_GeneratorExp = ev_ListComp

    def ev_SetComp(self, n):
        src, _ = self.comp(n, [n.elt])
        if isinstance(n.elt, ast.Call) and isinstance(n.elt.func, ast.Name) and n.elt.func.id in ("int", "len", "bool", "float"):
            return None
        return Any_("set", src or short(n, 40))

    def ev_DictComp(self, n):
        src, _ = self.comp(n, [n.key, n.value])
        return Any_("dict", src) if src else None

    def ev_BinOp(self, n):
        a, b = self.ev(n.left), self.ev(n.right)
        if isinstance(n.op, ast.Mod) and (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) or isinstance(n.left, ast.JoinedStr)):
            return self.formatted(n, [b] if not isinstance(n.right, ast.Tuple) else [self.ev(e) for e in n.right.elts])
        if isinstance(n.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            if isinstance(n.op, ast.Sub) and self.all_but(n):
                return None
            for v in (a, b):
                if isinstance(v, Any_) and v.kind == "set":
                    return v
        if isinstance(n.op, ast.Add):
            v = either(a if isinstance(a, Any_) else None, b if isinstance(b, Any_) else None)
            if v is not None and v.kind in ("list", "arr"):
                return v
            if self.texty(n):
                return either(a if isinstance(a, Item) else None, b if isinstance(b, Item) else None)
        v = either(a if isinstance(a, Any_) else None, b if isinstance(b, Any_) else None)
        return v if v is not None and v.kind == "arr" else None

    def members(self, n):
        """number of elements of a set written out"""
        if isinstance(n, ast.Name):
            vals = [st.value for st in ast.walk(self.f.node) if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n.id for t in st.targets)]
            return self.members(vals[0]) if len(vals) == 1 else None
        if isinstance(n, ast.Set):
            return len(n.elts)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "set" and n.args and isinstance(n.args[0], (ast.List, ast.Tuple, ast.Set)):
            return len(n.args[0].elts)
        return None

    def all_but(self, n):
        """a set written out less all but one of its elements"""
        a, b = self.members(n.left), self.members(n.right)
        return a is not None and b is not None and a - b <= 1

    def formatted(self, n, vals):
        for v in vals:
            if isinstance(v, Any_) and v.kind in ("set", "list", "dict", "arr") and not self.message(n):
                self.report("text-in-arbitrary-order", n, v, "text that lists elements in arbitrary order")
        return next((v for v in vals if isinstance(v, Item)), None)

    def ev_JoinedStr(self, n):
        return self.formatted(n, [self.ev(p.value) for p in n.values if isinstance(p, ast.FormattedValue)])

    def ev_Tuple(self, n):
        vals = [self.ev(e) for e in n.elts]
        return Multi(vals) if any(isinstance(v, Any_) for v in vals) else None

    def ev_List(self, n):
        vals = [self.ev(e) for e in n.elts]
        t = next((v for v in vals if isinstance(v, Any_)), None)
        if t is None:
            return None
        return Any_("list" if any(isinstance(e, ast.Starred) for e in n.elts) else "plain", t.src, t)

    def ev_Starred(self, n):
        return self.ev(n.value)

    def ev_Attribute(self, n):
        v = self.ev(n.value)
        if isinstance(v, Any_) and v.kind == "arr" and n.attr in ("T", "values"):
            return v
        return v if isinstance(v, Item) and v.kind == "el" else None

    def ev_Subscript(self, n):
        b = self.ev(n.value)
        i = self.ev(n.slice)
        if isinstance(b, Multi):
            return b.vals[n.slice.value] if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int) and n.slice.value < len(b.vals) else None
        if isinstance(b, Any_) and b.kind == "plain":
            return b if isinstance(n.slice, ast.Slice) else b.elem
        if not isinstance(b, Any_):
            return b if isinstance(b, Item) and b.kind == "el" else None
        if b.kind in ("list", "arr"):
            s = n.slice
            if isinstance(s, ast.Slice):
                if all(x is None for x in (s.lower, s.upper)):
                    return b
                self.report("place-in-arbitrary-order", n, b, "part of something in arbitrary order")
                return b
            if isinstance(i, Item) and i.kind == "idx" and i.src == b.src:
                return Item("el", b.src)
            const = isinstance(s, ast.Constant) and isinstance(s.value, int) and not isinstance(s.value, bool) or \
                isinstance(s, ast.UnaryOp) and isinstance(s.operand, ast.Constant)
            if isinstance(s, ast.Constant) and isinstance(s.value, str):
                return b
            if const or b.kind == "list" and i is None:
                self.report("place-in-arbitrary-order", n, b, "an element is taken by its place in something in arbitrary order")
            elif b.kind == "arr":
                return b
        return None

    def ev_Call(self, n):
        fn = n.func
        u = self.u
        d = u.dotted(fn)
        args = [self.ev(a) for a in n.args]
        kws = {k.arg: self.ev(k.value) for k in n.keywords}
        a0 = args[0] if args else None
        if d in LISTING:
            self.an.res.count("listings")
            self.an.res.sample("listings", f"{where(self.f)}: {short(n)}")
            return Any_(LISTING[d], short(n, 60))
        name = fn.id if isinstance(fn, ast.Name) and fn.id not in u.local else None
        if name is not None and project_builtin(self.an.project, self.f.module, name):
            return self.builtin(n, name, args)
        if d is not None:
            last = d.rsplit(".", 1)[1] if "." in d else d
            if d.startswith("numpy.") and d.count(".") == 1:
                if last in NP_KEEPS and isinstance(a0, Any_):
                    return a0.as_("arr")
                if last in NP_KEEPS and n.args and isinstance(n.args[0], (ast.List, ast.Tuple)):
                    for e in n.args[0].elts:
                        v = self.ev(e)
                        if isinstance(v, Any_) and v.kind in ("list", "arr"):
                            return v.as_("arr")
                return None
            if last in ("concat",) and isinstance(a0, Any_):
                return a0.as_("arr")
            if d in ("itertools.chain", "itertools.chain.from_iterable", "copy.copy", "copy.deepcopy", "itertools.islice"):
                if d.endswith("islice") and isinstance(a0, Any_):
                    self.report("place-in-arbitrary-order", n, a0, "part of something in arbitrary order")
                return a0 if isinstance(a0, Any_) else None
            if d == "functools.reduce":
                return None
            if d.startswith("random.") and last in ("choice", "sample", "choices", "shuffle") and isinstance(a0, Any_):
                self.report("place-in-arbitrary-order", n, a0, "what a seeded draw picks from something in arbitrary order differs from run to run")
            if last == "OrderedDict" and isinstance(a0, Any_):
                return a0.as_("dict")
            return None
        if isinstance(fn, ast.Attribute):
            r = self.method(n, fn, args, kws)
            if r is not NotImplemented:
                return r
        # package functions: what they return
        g = self.an.draws.target(u, fn) or self.an.func(self.f, fn, u)
        if g is None and isinstance(fn, (ast.Name, ast.Attribute)) and not (isinstance(fn, ast.Name) and fn.id in u.local):
            r = self.an.project.dotted(self.f.module, fn)
            if r is not None and r[0] == "class":
                c = self.an.project.find_method(r[1], "__init__")
                if c is not None:
                    self.an.summary(c, self.depth, self.given(c, n, args, kws))
                return None
        if g is not None:
            return self.an.summary(g, self.depth, self.given(g, n, args, kws))
        return None

    def given(self, g, n, args, kws):
        """arguments in arbitrary order, by parameter"""
        if any(isinstance(a, ast.Starred) for a in n.args):
            return {}
        pos = g.params()[1:] if g.cls is not None and not g.is_static else g.params()
        out = {k: v for k, v in zip(pos, args) if isinstance(v, Any_)}
        out.update({k: v for k, v in kws.items() if k in g.all_params() and isinstance(v, Any_)})
        return out

    def builtin(self, n, name, args):
        a0 = args[0] if args else None
        if name in ("set", "frozenset"):
            if not n.args:
                return Any_("set", "set()") if self.grows_with_text(n) else None
            self.an.res.count("sets_made")
            if isinstance(n.args[0], (ast.List, ast.Tuple)) and len(n.args[0].elts) < 2:
                return None
            if self.numbers(n.args[0]):
                return None
            return Any_("set", short(n, 60))
        if name == "sorted" and isinstance(a0, Any_) and a0.kind in ("plain", "list") and isinstance(a0.elem, Any_):
            return Any_("plain", a0.elem.src, a0.elem)
        if name in ("sorted", "len", "sum", "min", "max", "any", "all", "isinstance", "bool", "type", "id"):
            return None
        if name in ("str", "repr", "format") and isinstance(a0, Any_):
            return self.formatted(n, [a0])
        if name == "str" and isinstance(a0, Item):
            return a0
        if name in ("list", "tuple") and isinstance(a0, Any_) and a0.kind == "plain":
            return a0
        if name in ("list", "tuple", "reversed", "iter", "filter") or name == "map":
            v = args[-1] if name in ("filter", "map") and args else a0
            if isinstance(v, tuple):
                return Any_("list", v[1].src) if len(v) == 2 and isinstance(v[1], Any_) else None
            if isinstance(v, Any_):
                return v.as_("list")
            return None
        if name == "next" and isinstance(a0, Any_):
            self.report("place-in-arbitrary-order", n, a0, "the first element of something in arbitrary order")
        if name == "enumerate" and isinstance(a0, Any_):
            return ("enum", a0)
        if name == "range":
            v = next((a for a in n.args if self.lenof(a)), None)
            t = self.get(self.lenof(v)) if v is not None else None
            return ("range", t) if isinstance(t, Any_) else None
        if name == "zip":
            t = [v for v in args if isinstance(v, Any_) and v.kind != "plain"]
            if t:
                rest = [a for a, v in zip(n.args, args) if not isinstance(v, Any_) or v.src != t[0].src]
                rest = [a for a in rest if not (isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr in ("cycle", "repeat", "count")
                                                or isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "range")]
                if rest and len(args) > 1 and not any(isinstance(a, ast.Starred) for a in n.args):
                    self.report("paired-in-arbitrary-order", n, t[0], f"elements in arbitrary order are paired with {short(rest[0])} by place")
                return Any_("list", t[0].src)
        if name == "dict" and isinstance(a0, Any_):
            return a0.as_("dict")
        return None

    def grows_with_text(self, n):
        """`x = set()` becomes a set of more than numbers"""
        st = next((p for p in chain(self.pm, n) if isinstance(p, ast.stmt)), None)
        if not isinstance(st, ast.Assign) or len(st.targets) != 1:
            return True
        key = ast.unparse(st.targets[0])
        scope = self.f.node
        adds = []
        for c in ast.walk(scope):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and ast.unparse(c.func.value) == key and c.func.attr in ("add", "update") and c.args:
                adds.append((c.func.attr, c.args[0]))
        return not adds or not all(self.number(a) if how == "add" else self.numbers(a) for how, a in adds)

    def number(self, a):
        """evidently an integer"""
        if isinstance(a, ast.Constant):
            return isinstance(a.value, int)
        if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id in ("int", "len", "round", "bool", "hash", "id"):
            return True
        if isinstance(a, ast.BinOp):
            return self.number(a.left) or self.number(a.right)
        return False

    def numbers(self, a):
        """evidently a collection of integers (their order in a set does not change from run to run)"""
        if isinstance(a, ast.Call):
            d = self.u.dotted(a.func) or ""
            if d in ("numpy.where", "numpy.arange", "numpy.argsort", "numpy.nonzero", "numpy.searchsorted") or isinstance(a.func, ast.Name) and a.func.id == "range":
                return True
            if isinstance(a.func, ast.Attribute) and a.func.attr in ("tolist", "ravel", "copy", "astype"):
                return self.numbers(a.func.value)
            if isinstance(a.func, ast.Name) and a.func.id in ("list", "tuple", "set", "sorted") and a.args:
                return self.numbers(a.args[0])
        if isinstance(a, ast.Subscript):
            return self.numbers(a.value)
        if isinstance(a, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            return self.number(a.elt)
        if isinstance(a, ast.Name):
            vals = [st.value for st in ast.walk(self.f.node) if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == a.id for t in st.targets)]
            return bool(vals) and all(not any(isinstance(x, ast.Name) and x.id == a.id for x in ast.walk(v)) and self.numbers(v) for v in vals)
        return False

    def method(self, n, fn, args, kws):
        base = fn.value
        v = self.ev(base)
        a0 = args[0] if args else None
        name = fn.attr
        k = self.key(base)
        if name == "join" and isinstance(a0, (Any_, tuple)) and not (isinstance(a0, Any_) and a0.kind == "plain"):
            t = a0 if isinstance(a0, Any_) else a0[1]
            if not self.message(n) and not self.path(base):
                self.report("text-in-arbitrary-order", n, t, "text that lists elements in arbitrary order")
            return None
        if name == "format" and (isinstance(base, ast.Constant) or self.texty(base)):
            return self.formatted(n, args + list(kws.values()))
        if name in LISTING_METHODS and v is None and not isinstance(base, ast.Constant) and self.pathlike(base):
            self.an.res.count("listings")
            return Any_("list", short(n, 60))
        if name in ("append", "extend", "insert", "appendleft") and k is not None and (self.loops or isinstance(a0, Any_)):
            src = self.loops[-1] if self.loops else a0.src
            if name == "insert" and not self.loops:
                return None
            if name == "append" and not self.loops:
                if isinstance(a0, Any_):
                    self.put(k, v if isinstance(v, Any_) else Any_("plain", a0.src, a0))
                return None
            if name == "extend" and isinstance(a0, Any_) and a0.kind == "plain":
                self.put(k, a0)
                return None
            self.put(k, Any_("list", src, a0 if name == "append" and isinstance(a0, Any_) else None))
            return None
        if name in ("choice", "permutation", "shuffle") and isinstance(a0, Any_):
            self.report("place-in-arbitrary-order", n, a0, "what a seeded draw picks from something in arbitrary order differs from run to run")
        if name in SET_OPS and isinstance(base, ast.Name) and base.id in ("set", "frozenset"):
            t = next((a for a in args if isinstance(a, Any_)), None)
            return Any_("set", t.src) if t is not None else None
        if name in SET_OPS:
            t = v if isinstance(v, Any_) else None
            if t is not None and t.kind == "set":
                return t
        if not isinstance(v, Any_):
            if name in ("replace", "split", "strip", "lower", "upper", "rstrip", "lstrip", "joinpath", "with_suffix", "as_posix", "relative_to", "resolve") and isinstance(v, Item):
                return v
            return NotImplemented
        if name == "sort" and v.kind in ("list", "arr"):
            if k is not None:
                self.put(k, None)
            return None
        if name == "copy":
            return v
        if name in ("keys", "values") and v.kind == "dict":
            return v.as_("list")
        if name == "items" and v.kind == "dict":
            return ("items", v)
        if name == "pop" and v.kind in ("set", "list"):
            if not self.drained(n):
                self.report("place-in-arbitrary-order", n, v, "takes whichever element comes up")
            return None
        if name == "popitem":
            self.report("place-in-arbitrary-order", n, v, "takes whichever element comes up")
            return None
        if name in ("tolist", "astype", "ravel", "flatten", "reset_index", "reshape", "squeeze", "to_numpy"):
            return v
        if name in ("head", "tail", "first", "last") and v.kind == "arr":
            self.report("place-in-arbitrary-order", n, v, "part of something in arbitrary order")
        return None

    def drained(self, n):
        """`while s: x = s.pop()` visits every element"""
        for p in chain(self.pm, n):
            if isinstance(p, ast.While):
                return True
        return False

    @staticmethod
    def path(base):
        return isinstance(base, ast.Attribute) and base.attr == "path" or isinstance(base, ast.Name) and base.id in ("path", "os")

    def pathlike(self, base):
        t = ast.unparse(base).lower()
        return "path" in t or "dir" in t

class OrderAnalysis:
    def __init__(self, project, res):
        self.project, self.res = project, res
        self.draws = Draws(project, Result())
        self.cache, self.attrs, self.busy = {}, {}, set()

    def func(self, f, fn, u):
        if isinstance(fn, ast.Name) and fn.id in u.local:
            return None
        r = self.project.dotted(f.module, fn)
        return r[1] if r is not None and r[0] == "func" else None

    def summary(self, g, depth, given=None):
        key = (id(g), tuple(sorted((k, v.kind, v.src) for k, v in (given or {}).items())))
        if id(g) in self.busy or depth > 5 or g.is_generator:
            return None
        if key not in self.cache:
            self.busy.add(id(g))
            try:
                w = Order(self, g, depth + 1)
                if given:
                    w.env.update(given)
                    w.quiet = False
                self.cache[key] = w.run()
            finally:
                self.busy.discard(id(g))
        r = self.cache[key]
        return r if isinstance(r, (Any_, Multi)) else None

    def attr(self, cls, name, asking):
        """order of self.<name> as the methods of the class leave it (read in another method)"""
        key = (id(cls), name)
        if key in self.attrs:
            return self.attrs[key]
        self.attrs[key] = None
        val = None
        for c in self.project.mro(cls):
            for g in c.methods.values():
                if not any(isinstance(n, ast.Attribute) and n.attr == name for n in walk_own(g.node)):
                    continue
                if id(g) in self.busy or g is asking:
                    continue
                self.busy.add(id(g))
                w = Order(self, g, 1)
                try:
                    w.run()
                finally:
                    self.busy.discard(id(g))
                v = w.env.get("self." + name)
                if isinstance(v, Any_):
                    val = either(val, v)
        self.attrs[key] = val
        return val


def check_order(project, tier):
    res = Result()
    an = OrderAnalysis(project, res)
    for f in project.all_functions():
        res.count("functions_walked")
        Order(an, f).run()
    res.guard("functions_walked", 1000)
    return res


# ---------------------------------------------------------------------------------------------------- the moment of the run
CALCULATES = ("rubin_sim/maf/metrics/", "rubin_sim/maf/maf_contrib/", "rubin_sim/maf/stackers/", "rubin_sim/maf/slicers/", "rubin_sim/maf/maps/",
              "rubin_sim/maf/utils/", "rubin_sim/maf/metric_bundles/", "rubin_sim/maf/batches/", "rubin_sim/phot_utils/", "rubin_sim/skybrightness/", "rubin_sim/satellite_constellations/",
              "rubin_sim/selfcal/", "rubin_sim/moving_objects/")


def check_clock(project, tier):
    res = Result()
    draws = Draws(project, Result())
    for u in draws.units:
        f = u.f
        for d in f.defaults().values():
            res.count("defaults")
            for x in ast.walk(d):
                if isinstance(x, ast.Call):
                    t = dotted(project, u.m, x.func)
                    if t in ENTROPY or t in CLOCK or draw_kind(t):
                        res.add("moment-of-import", where(f), short(x), f"default {short(x)} is worked out once, when the module is imported: every later call gets that value", x.lineno)
        if not u.m.relpath.startswith(CALCULATES) or "date" in f.name:
            continue
        w = None
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call):
                continue
            t = u.dotted(n.func)
            if t not in CLOCK:
                continue
            res.count("clock_reads")
            w = w or Order(type("A", (), {"draws": draws})(), f)
            if not elapsed(w, n):
                res.add("moment-of-run", where(f), short(n), f"{short(n)} enters the result: the same inputs give another result at another time", n.lineno)
    res.guard("defaults", 1000)
    return res


def elapsed(w, n, depth=0):
    """the clock is read for a message, or to tell how long something took"""
    if w.message(n):
        return True
    for p in chain(w.pm, n)[1:]:
        if isinstance(p, ast.BinOp) and isinstance(p.op, ast.Sub):
            return True
        if isinstance(p, ast.Tuple) and any(isinstance(x, ast.BinOp) and isinstance(x.op, ast.Sub) for x in p.elts):
            return True  # (elapsed, now): a stop-watch
        if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in ("dtime", "elapsed_time"):
            return True
        if isinstance(p, ast.stmt):
            if isinstance(p, ast.Assign) and depth < 3:
                names = {x.id for t in p.targets for x in ast.walk(t) if isinstance(x, ast.Name)}
                if not names or any(isinstance(x, (ast.Attribute, ast.Subscript)) for t in p.targets for x in ast.walk(t)):
                    return False
                uses = [x for x in ast.walk(w.f.node) if isinstance(x, ast.Name) and x.id in names and isinstance(x.ctx, ast.Load)]
                return all(elapsed(w, x, depth + 1) or stamped(w, x) for x in uses)
            return False
    return False


def stamped(w, x):
    """handed to a stop-watch or written to a file as a time stamp"""
    for p in chain(w.pm, x)[1:]:
        if isinstance(p, ast.Call):
            name = p.func.attr if isinstance(p.func, ast.Attribute) else getattr(p.func, "id", "")
            if name in ("write", "dtime", "elapsed_time"):
                return True
        if isinstance(p, ast.stmt):
            return False
    return False
