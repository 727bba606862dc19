"""The arrangement of the visits: which arrays are in which order, what depends on neighbours, and what is combined row by row."""
import ast
import re
from collections import namedtuple

from ..core import Result, where
from ..flow import expr_key
from .aliasing import family
from .linking import call_target

# kind: table | col | mask | wpos (result of where) | pos (row numbers) | shift (row numbers moved along) | perm (a sorting permutation)
# frame: (root, steps...) with steps ("sort", key) ("rev",) ("mask", what); copy: not a view of the table
Row = namedtuple("Row", "kind frame key uid copy")
NONE = frozenset()

NP = {"np", "numpy", "ma"}
NEIGHBOUR = {"diff", "ediff1d", "roll", "gradient", "cumsum", "cumprod", "nancumsum", "nancumprod", "convolve", "correlate", "trapz", "array_split", "split", "lfilter"}
NEIGHBOUR_M = {"cumsum", "cumprod", "diff", "shift", "rolling", "ffill", "bfill", "head", "tail", "pct_change", "expanding", "ewm", "cummax", "cummin"}
SAME = {"array", "asarray", "asanyarray", "copy", "ravel", "atleast_1d", "squeeze", "list", "tuple", "ascontiguousarray", "masked_array", "filled"}
SAME_M = {"copy", "astype", "tolist", "ravel", "flatten", "squeeze", "filled", "view", "to_numpy", "to_records", "reset_index", "round", "fillna", "to_list"}
ELEMENT = {"abs", "absolute", "fabs", "sqrt", "square", "power", "log", "log10", "log2", "exp", "sin", "cos", "tan", "arcsin", "arccos", "arctan", "arctan2", "radians", "degrees", "deg2rad",
           "rad2deg", "floor", "ceil", "round", "around", "rint", "trunc", "isfinite", "isnan", "isinf", "logical_and", "logical_or", "logical_not", "logical_xor", "invert", "equal", "not_equal",
           "greater", "less", "greater_equal", "less_equal", "minimum", "maximum", "add", "subtract", "multiply", "divide", "mod", "fmod", "clip", "sign", "hypot", "isin", "in1d", "nan_to_num",
           "isclose", "int_", "float_", "bitwise_and", "bitwise_or", "heaviside"}
MASKS = {"isfinite", "isnan", "isinf", "logical_and", "logical_or", "logical_not", "invert", "equal", "not_equal", "greater", "less", "greater_equal", "less_equal", "isin", "in1d", "isclose", "bitwise_and", "bitwise_or"}
TIED = re.compile(r"night|filter|band|field_?id|proposal|note|target|season|survey|exptime|exposuretime|numexp|nexp", re.I)
ALIKE = re.compile(r"filter|band", re.I)
TIME = re.compile(r"mjd|time|date|observationstart|exposure_?start", re.I)
DATE = re.compile(r"night|season|day", re.I)


def sorts(frame):
    for s in reversed(frame[1:]):
        if s[0] == "sort":
            return s[1]
    return None


def parts(frame):
    """(what rows, in which arrangement)"""
    return (frame[0], tuple(s for s in frame[1:] if s[0] == "mask")), tuple(s for s in frame[1:] if s[0] != "mask")


def arrangement(frame):
    """the sorting that counts: the last one (and reversals after it)"""
    a = parts(frame)[1]
    i = max([k for k, s in enumerate(a) if s[0] == "sort"], default=-1)
    out = []
    for s in a[max(i, 0):]:
        if s[0] == "rev" and out and out[-1][0] == "rev":
            out.pop()
        else:
            out.append(s)
    return tuple(out)


def apart(f, g):
    """the same rows, arranged differently"""
    return parts(f)[0] == parts(g)[0] and arrangement(f) != arrangement(g)


class Tup:
    def __init__(self, vals):
        self.vals = list(vals)

    def __eq__(self, o):
        return isinstance(o, Tup) and self.vals == o.vals

    def __hash__(self):
        return hash(tuple(self.vals))


def join(a, b):
    if a == b:
        return a
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.vals) == len(b.vals):
        return Tup([join(x, y) for x, y in zip(a.vals, b.vals)])
    if isinstance(a, Tup) or isinstance(b, Tup):
        return a if b == NONE else b if a == NONE else NONE
    out = a | b
    return out if len(out) <= 6 else frozenset(sorted(out, key=repr)[:6])


class Walk:
    def __init__(self, an, f, cls, given, depth=0):
        self.an, self.f, self.cls, self.given, self.depth = an, f, cls, given, depth
        self.project = an.project
        self.me = f.params()[0] if f.cls is not None and not f.is_static and f.params() else None
        self.ret = NONE
        self.first = True
        self.outs = None
        self.loopvars = []

    def run(self):
        env = dict(self.given)
        body = self.f.node.body if isinstance(self.f.node.body, list) else []
        env = self.block(body, env)
        self.leave(env)
        return self.ret, self.outs or {}

    def leave(self, env):
        if env is None:
            return
        now = {p: env[p] for p in self.given if p in env}
        self.outs = now if self.outs is None else {p: join(v, now.get(p, NONE)) for p, v in self.outs.items()}

    # --- reports
    def rows(self, v):
        return [] if isinstance(v, Tup) else list(v)

    def neighbours(self, v, node, how, env):
        """the result depends on which row stands next to which, or first"""
        for r in self.rows(v) if self.an.strict else ():
            if r.kind in ("perm", "wpos", "num", "edge") or parts(r.frame)[0] in env.get("!single", NONE):
                continue
            self.an.res.count("order_dependent_operations")
            k = sorts(r.frame)
            if k is None:
                if r.key is not None and ALIKE.search(r.key) and how.startswith("takes row"):
                    continue
                self.report("unsorted-neighbours", node, how, "in whatever order they are handed over: nothing sorted them first")
            elif "cum" not in how and "accumulate" not in how and TIED.search(k) and "," not in k and r.key is not None and r.key != k and not TIED.search(r.key):
                self.report("tied-neighbours", node, how, f"sorted by {k!r} only, within which their order is arbitrary")

    def report(self, rule, node, how, why):
        self.an.res.add(rule, where(self.f), expr_key(node)[:120], f"{how} of visits {why}", getattr(node, "lineno", None))

    def together(self, vals, node, what):
        """arrays used row by row with each other"""
        rs = [[r for r in self.rows(v) if r.kind in ("col", "mask", "table")] for v in vals]
        rs = [x for x in rs if x]
        for i in range(len(rs)):
            for j in range(i):
                self.an.res.count("row_by_row_combinations")
                if self.conflict(rs[i], rs[j]):
                    self.report("rows-apart", node, what, "pairs arrays whose rows are arranged differently (one was sorted, the other was not)")
                    return

    @staticmethod
    def conflict(a, b):
        """for no way of getting here are these arranged alike, and for some they are not"""
        pairs = [(x.frame, y.frame) for x in a for y in b if parts(x.frame)[0] == parts(y.frame)[0]]
        return bool(pairs) and all(apart(x, y) for x, y in pairs)

    # --- statements (one environment per path, as long as there are few)
    def block(self, body, env):
        envs = self.blocks(body, [env])
        out = None
        for e in envs:
            out = self.merge(out, e)
        return out

    def blocks(self, body, envs):
        for st in body:
            new = []
            for e in envs:
                new += self.paths(st, e)
            envs = self.few(new)
            if not envs:
                break
        return envs

    def few(self, envs, n=8):
        out = []
        for e in envs:
            if e not in out:
                out.append(e)
        while len(out) > n:
            x = out.pop()
            out[-1] = self.merge(out[-1], x)
        return out

    def paths(self, st, env):
        if isinstance(st, ast.If):
            self.ev(st.test, env)
            a, b = self.single(st.test, env)
            return self.blocks(st.body, [a]) + self.blocks(st.orelse, [b])
        if isinstance(st, ast.With):
            for it in st.items:
                self.ev(it.context_expr, env)
                if it.optional_vars is not None:
                    self.bind(it.optional_vars, NONE, env, None)
            return self.blocks(st.body, [env])
        e = self.stmt(st, dict(env))
        return [] if e is None else [e]

    @staticmethod
    def merge(a, b):
        if a is None:
            return b
        if b is None:
            return a
        return {k: join(a.get(k, NONE), b.get(k, NONE)) if k[0] != "!" else a.get(k, NONE) & b.get(k, NONE) for k in set(a) | set(b)}

    def stmt(self, st, env):
        t = type(st)
        if t is ast.Assign:
            v = self.ev(st.value, env)
            for tg in st.targets:
                self.bind(tg, v, env, st.value)
            return env
        if t is ast.AnnAssign:
            if st.value is not None:
                self.bind(st.target, self.ev(st.value, env), env, st.value)
            return env
        if t is ast.AugAssign:
            a = self.ev(st.target, env)
            b = self.ev(st.value, env)
            self.together([a, b], st, "a sum")
            if isinstance(st.target, ast.Subscript) and isinstance(st.target.value, ast.Name) and not self.rows(env.get(st.target.value.id, NONE)):
                self.bind(st.target, b, env, None)
            if isinstance(st.target, ast.Name):
                env[st.target.id] = self.derived([a, b], st)
            return env
        if t is ast.Expr:
            self.ev(st.value, env)
            return env
        if t is ast.Return:
            if st.value is not None:
                v = self.ev(st.value, env)
                self.ret = v if self.first else join(self.ret, v)
                self.first = False
            self.leave(env)
            return None
        if t is ast.Raise:
            return None
        if t in (ast.For, ast.AsyncFor):
            v = self.ev(st.iter, env)
            self.carried(st, v, env)
            names = [x.id for x in ast.walk(st.target) if isinstance(x, ast.Name)]
            self.loopvars.append(set(names))
            cur = env
            for _ in range(2):
                e = dict(cur)
                self.bind(st.target, self.elements(st.iter, env), e, None)
                cur = self.merge(cur, self.block(st.body, e))
            self.loopvars.pop()
            if st.orelse:
                cur = self.merge(cur, self.block(st.orelse, dict(cur)))
            return cur
        if t is ast.While:
            cur = env
            for _ in range(2):
                self.ev(st.test, cur)
                cur = self.merge(cur, self.block(st.body, dict(cur)))
            return cur
        if t is ast.Try:
            a = self.block(st.body, dict(env))
            h = self.merge(dict(env), a)
            out = self.block(st.orelse, a) if a is not None else None
            for x in st.handlers:
                out = self.merge(out, self.block(x.body, dict(h)))
            return self.block(st.finalbody, out) if st.finalbody and out is not None else out
        return env

    def carried(self, st, v, env):
        """for row in rows: ... previous = row"""
        if not self.rows(v) or not isinstance(st.target, ast.Name):
            return
        for x in st.body:
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id == st.target.id and isinstance(x.targets[0], ast.Name):
                before = [n for s in st.body[: st.body.index(x)] for n in ast.walk(s) if isinstance(n, ast.Name) and n.id == x.targets[0].id and isinstance(n.ctx, ast.Load)]
                if before:
                    self.neighbours(v, x, "compares each row with the one before it, over a sequence", env)

    def single(self, test, env):
        """len(x) == 1: there is only one row"""
        a, b = dict(env), dict(env)
        neg = False
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test, neg = test.operand, not neg
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Eq, ast.NotEq)) and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value == 1:
            x = test.left
            x = x.args[0] if isinstance(x, ast.Call) and x.args and expr_key(x.func) in ("len", "np.size") else x.value if isinstance(x, ast.Attribute) and x.attr == "size" else None
            v = self.ev(x, env) if x is not None else NONE
            if self.rows(v):
                e = b if isinstance(test.ops[0], ast.NotEq) ^ neg else a
                e["!single"] = env.get("!single", NONE) | frozenset(parts(r.frame)[0] for r in v)
        return a, b

    def elements(self, it, env):
        """what the loop variable is: row numbers, if it goes through some"""
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("zip", "enumerate"):
            vs = [self.elements(a, env) for a in it.args]
            return Tup([NONE] + vs[:1] if it.func.id == "enumerate" else vs)
        return frozenset(Row("num", r.frame, None, None, True) for r in self.rows(self.ev(it, env)) if r.kind in ("pos", "perm", "edge"))

    def bind(self, tg, v, env, value):
        if isinstance(tg, ast.Name):
            env[tg.id] = v
        elif isinstance(tg, (ast.Tuple, ast.List)):
            if isinstance(v, Tup) and len(v.vals) == len(tg.elts):
                for x, w in zip(tg.elts, v.vals):
                    self.bind(x, w, env, None)
            elif len(tg.elts) == 1 and [r for r in self.rows(v) if r.kind == "wpos"]:
                self.bind(tg.elts[0], frozenset(r._replace(kind="pos") for r in v if r.kind == "wpos"), env, None)
            else:
                for x in tg.elts:
                    self.bind(x, NONE, env, None)
        elif isinstance(tg, ast.Attribute) and isinstance(tg.value, ast.Name) and tg.value.id == self.me:
            env["self." + tg.attr] = v
        elif isinstance(tg, ast.Subscript):
            b = self.ev(tg.value, env)
            i = self.ev(tg.slice, env)
            self.picked(b, i, tg, env)
            back = [r for r in self.rows(i) if r.kind == "perm"]
            at = [r for r in self.rows(i) if r.kind in ("mask", "pos", "wpos")]
            if at and not self.rows(b) and isinstance(tg.value, ast.Name):
                # filled in at these rows: one value per row
                env[tg.value.id] = frozenset(Row("col", r.frame, None, None, True) for r in at)
            if back and isinstance(tg.value, ast.Name) and all(r.kind != "table" for r in self.rows(b)):
                # sorted values put back in their rows
                self.together([frozenset(r._replace(kind="col", frame=r.frame + (("sort", r.key),) + ((("mask", r.uid),) if r.uid else ())) for r in back), v], tg, "an assignment")
                env[tg.value.id] = frozenset(Row("col", r.frame, None, None, True) for r in back)
            if [r for r in self.rows(b) if r.kind == "table"] and not self.rows(i):
                self.together([b, v], tg, "a column of a table")
            elif [r for r in self.rows(b) if r.kind in ("col", "mask")] and isinstance(tg.slice, ast.Slice) and tg.slice.lower is None and tg.slice.upper is None:
                self.together([b, v], tg, "a column")

    # --- expressions
    def ev(self, n, env):
        if n is None or isinstance(n, ast.Constant):
            return NONE
        if isinstance(n, ast.Name):
            return env.get(n.id, NONE)
        if isinstance(n, ast.Attribute):
            if isinstance(n.value, ast.Name) and n.value.id == self.me:
                return env.get("self." + n.attr, NONE)
            b = self.ev(n.value, env)
            if n.attr in ("T", "values", "data", "iloc", "real"):
                return b
            if n.attr in ("size", "shape", "dtype", "ndim", "loc", "columns", "index", "mask"):
                return NONE
            if [r for r in self.rows(b) if r.kind == "table"]:
                return frozenset(Row("col", r.frame, n.attr, None, False) for r in b if r.kind == "table")
            return NONE
        if isinstance(n, ast.Subscript):
            return self.subscript(n, env)
        if isinstance(n, ast.Call):
            return self.call(n, env)
        if isinstance(n, ast.BinOp):
            a, b = self.ev(n.left, env), self.ev(n.right, env)
            self.together([a, b], n, "an expression")
            ks = {r.kind for v in (a, b) for r in self.rows(v)}
            if "num" in ks and isinstance(n.op, (ast.Add, ast.Sub)) and ks <= {"num"} and (a == NONE or b == NONE):
                return a or b
            if ks == {"edge"}:
                return (a or b) if a == NONE or b == NONE else NONE
            if "pos" in ks and isinstance(n.op, (ast.Add, ast.Sub)) and ks <= {"pos"} and (a == NONE or b == NONE):
                return frozenset(r._replace(kind="shift") for v in (a, b) for r in self.rows(v))
            mask = isinstance(n.op, (ast.BitAnd, ast.BitOr, ast.BitXor))
            return self.derived([a, b], n, "mask" if mask else "col")
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
            # (what kind of thing the column holds)
            self.ev(n.left.value if isinstance(n.left, ast.Subscript) else n.left, env)
            return NONE
        if isinstance(n, ast.Compare):
            vs = [self.ev(n.left, env)] + [self.ev(c, env) for c in n.comparators]
            if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
                return NONE
            self.together(vs, n, "a comparison")
            return self.derived(vs, n, "mask")
        if isinstance(n, ast.UnaryOp):
            v = self.ev(n.operand, env)
            if isinstance(n.op, ast.Not):
                return NONE
            return self.derived([v], n, "mask" if isinstance(n.op, ast.Invert) else "col")
        if isinstance(n, ast.BoolOp):
            for x in n.values:
                self.ev(x, env)
            return NONE
        if isinstance(n, ast.IfExp):
            self.ev(n.test, env)
            a, b = self.single(n.test, env)
            return join(self.ev(n.body, a), self.ev(n.orelse, b))
        if isinstance(n, ast.Tuple):
            return Tup([self.ev(e, env) for e in n.elts])
        if isinstance(n, (ast.List, ast.Set)):
            for e in n.elts:
                self.ev(e, env)
            return NONE
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            e = dict(env)
            names = set()
            for g in n.generators:
                self.ev(g.iter, e)
                self.bind(g.target, NONE, e, None)
                names |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                self.loopvars.append(names)
                for c in g.ifs:
                    self.ev(c, e)
                self.loopvars.pop()
            self.loopvars.append(names)
            if isinstance(n, ast.DictComp):
                self.ev(n.key, e)
                self.ev(n.value, e)
            else:
                self.ev(n.elt, e)
            self.loopvars.pop()
            return NONE
        if isinstance(n, ast.Starred):
            self.ev(n.value, env)
            return NONE
        if isinstance(n, ast.NamedExpr):
            v = self.ev(n.value, env)
            env[n.target.id] = v
            return v
        if isinstance(n, (ast.Lambda,)):
            return NONE
        if isinstance(n, ast.Slice):
            return NONE
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return NONE

    def derived(self, vals, node, kind="col"):
        """computed row by row"""
        rs = [r for v in vals for r in self.rows(v) if r.kind in ("col", "mask", "table")]
        if not rs:
            return NONE
        single = len({(r.frame, r.key) for r in rs}) == 1
        return frozenset(Row(kind, r.frame, r.key if single and kind == "col" else None, expr_key(node)[:200] if kind == "mask" else None, True) for r in rs)

    def column_key(self, s):
        if isinstance(s, ast.Constant) and isinstance(s.value, str):
            return s.value
        if isinstance(s, ast.Attribute) and isinstance(s.value, ast.Name) and s.value.id == self.me:
            return self.an.column(self.cls, s.attr) or "?" + s.attr
        return "?" + expr_key(s).split(".")[-1]

    def is_column(self, s, env):
        if isinstance(s, (ast.JoinedStr,)):
            return True
        if isinstance(s, ast.Constant):
            return isinstance(s.value, str)
        if isinstance(s, ast.Attribute):
            return True
        if isinstance(s, ast.Name):
            return not any(s.id in l for l in self.loopvars) or bool(re.search(r"col|name|key", s.id, re.I))
        if isinstance(s, ast.BinOp):
            return isinstance(s.op, ast.Mod) or isinstance(s.left, (ast.Constant,)) and isinstance(s.left.value, str)
        return False

    def subscript(self, n, env):
        b = self.ev(n.value, env)
        i = self.ev(n.slice, env)
        if isinstance(b, Tup):
            if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int) and -len(b.vals) <= n.slice.value < len(b.vals):
                return b.vals[n.slice.value]
            return NONE
        return self.picked(b, i, n, env)

    def picked(self, b, i, n, env):
        rs = self.rows(b)
        if not rs:
            return NONE
        s = n.slice
        if isinstance(i, Tup):
            return NONE
        nums = [i] if not isinstance(s, ast.Slice) else [self.ev(x, env) for x in (s.lower, s.upper) if x is not None]
        nums = [frozenset(r for r in self.rows(v) if r.kind == "num") for v in nums]
        for v in nums:
            if v and self.conflict(rs, v):
                self.report("rows-apart", n, "an index", "uses row numbers of one arrangement in an array that is arranged differently (one was sorted, the other was not)")
        if any(nums) and not isinstance(s, ast.Slice):
            return NONE
        if i:
            # rows chosen by an array
            out = set()
            data = [r for r in rs if r.kind in ("col", "mask", "table")]
            if data:
                self.an.res.count("row_by_row_combinations")
                if self.conflict(data, i):
                    self.report("rows-apart", n, "an index", "uses rows of one arrangement in an array that is arranged differently (one was sorted, the other was not)")
                elif all(x.kind in ("pos", "wpos", "perm", "edge") for x in i) and all(r.frame[0] == x.frame[0] and parts(r.frame)[0] != parts(x.frame)[0] for r in data for x in i):
                    self.report("rows-apart", n, "an index", "uses row numbers of one selection of rows in another selection")
            for r in rs:
                if r.kind == "wpos":
                    continue
                if r.kind in ("pos", "perm", "edge", "shift"):
                    # some of these row numbers
                    out |= {r._replace(uid=(r.uid or "") + (x.uid or expr_key(s)[:200])) for x in i}
                    continue
                for x in i:
                    if x.kind == "perm":
                        f = r.frame + (("sort", x.key),)
                        if x.uid:
                            f += (("mask", x.uid),)
                        out.add(r._replace(frame=f, copy=True))
                    elif x.kind == "edge":
                        if r.kind in ("col", "table") and r.key != x.key:
                            self.neighbours(frozenset([r]), n, "takes the first or last row of each group", env)
                        out.add(r._replace(frame=r.frame + (("mask", expr_key(s)[:200]),), copy=True))
                    elif x.kind == "shift":
                        self.neighbours(frozenset([r]), n, "takes rows a number of places away", env)
                        out.add(r._replace(frame=r.frame + (("mask", expr_key(s)[:200]),), copy=True))
                    elif x.kind in ("mask", "pos", "wpos"):
                        out.add(r._replace(frame=r.frame + (("mask", x.uid or expr_key(s)[:200]),), copy=True))
            return frozenset(out)
        if isinstance(s, ast.Slice) and any(nums):
            return frozenset(r._replace(frame=r.frame + (("mask", "[" + expr_key(s)[:200] + "]"),)) for r in rs if r.kind not in ("wpos", "num"))
        if isinstance(s, ast.Slice):
            step = s.step
            if s.lower is None and s.upper is None and step is None:
                return b
            if s.lower is None and s.upper is None and isinstance(step, ast.UnaryOp) and expr_key(step) == "-1":
                return frozenset(r._replace(key=r.key[1:] if r.key[0] == "-" else "-" + r.key) if r.kind == "perm" else r if r.kind in ("pos", "edge", "num") else r._replace(frame=r.frame + (("rev",),)) for r in rs)
            out = set()
            self.neighbours(b, n, "takes some of a sequence", env)
            for r in rs:
                if r.kind in ("perm", "pos", "edge", "shift"):
                    out.add(r._replace(uid=(r.uid or "") + expr_key(s)[:200]))
                elif r.kind != "wpos":
                    out.add(r._replace(frame=r.frame + (("mask", "[" + expr_key(s)[:200] + "]"),)))
            return frozenset(out)
        if all(r.kind == "wpos" for r in rs):
            return frozenset(r._replace(kind="pos") for r in rs) if isinstance(s, ast.Constant) and s.value == 0 else NONE
        if isinstance(s, ast.Constant) and isinstance(s.value, int) or isinstance(s, ast.UnaryOp) and isinstance(s.operand, ast.Constant):
            self.neighbours(frozenset(r for r in rs if r.kind != "wpos"), n, f"takes row {expr_key(s)}", env)
            return NONE
        if isinstance(s, ast.BinOp) and isinstance(s.op, ast.Sub) and isinstance(s.right, ast.Constant) and s.right.value == 1 and self.a_count(s.left):
            self.neighbours(frozenset(r for r in rs if r.kind != "wpos"), n, f"takes row {expr_key(s)}", env)
            return NONE
        if all(r.kind in ("perm", "edge", "pos") for r in rs):
            one = isinstance(s, ast.Name) and any(s.id in l for l in self.loopvars)
            return frozenset(Row("num", r.frame, None, None, True) if one else r._replace(uid=(r.uid or "") + expr_key(s)[:200]) for r in rs)
        tables = [r for r in rs if r.kind == "table"]
        if tables and self.is_column(s, env):
            return frozenset(Row("col", r.frame, self.column_key(s), None, False) for r in tables)
        if tables and isinstance(s, (ast.List,)):
            return b
        if isinstance(s, ast.BinOp) and isinstance(s.op, (ast.Add, ast.Sub)):
            names = {x.id for x in ast.walk(s) if isinstance(x, ast.Name)}
            if any(names & l for l in self.loopvars) and isinstance(s.right, ast.Constant):
                self.neighbours(b, n, "takes the neighbour of each row in a sequence", env)
        return NONE

    def a_count(self, s):
        """one whole number: an option with a whole default, a length"""
        if isinstance(s, ast.Call):
            return expr_key(s.func) in ("len", "np.size", "int")
        d = None
        if isinstance(s, ast.Name):
            d = self.f.defaults().get(s.id)
            if any(isinstance(x, ast.Name) and x.id == s.id and isinstance(x.ctx, ast.Store) for x in ast.walk(self.f.node)):
                return False
        elif isinstance(s, ast.Attribute) and isinstance(s.value, ast.Name) and s.value.id == self.me and self.cls is not None:
            for c in self.project.mro(self.cls):
                f = getattr(c, "methods", {}).get("__init__")
                for x in ast.walk(f.node) if f is not None else ():
                    if isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == s.attr for t in x.targets) and isinstance(x.value, ast.Name):
                        d = d or f.defaults().get(x.value.id)
        return isinstance(d, ast.Constant) and type(d.value) is int

    # --- calls
    def call(self, n, env):
        fn = n.func
        if isinstance(fn, ast.Name) and fn.id in ("type", "isinstance", "hasattr") and n.args and isinstance(n.args[0], ast.Subscript):
            self.ev(n.args[0].value, env)
            return NONE
        args = [self.ev(a, env) for a in n.args]
        kws = {k.arg: self.ev(k.value, env) for k in n.keywords}
        knode = {k.arg: k.value for k in n.keywords}
        name = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ""
        lib = isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in NP
        a0 = args[0] if args else kws.get("a", kws.get("x", NONE))
        if isinstance(fn, ast.Attribute) and not lib and name not in ("accumulate", "reduceat"):
            v = self.method(n, fn, args, kws, knode, env)
            if v is not None:
                return v
        if lib or isinstance(fn, ast.Name) and name in ("list", "tuple", "sorted", "abs", "zip", "enumerate", "reversed", "max", "min", "sum", "round"):
            if name == "zip":
                self.together(args, n, "a zip")
                return NONE
            if name in SAME:
                return frozenset(r._replace(copy=True) for r in self.rows(a0))
            if name in ("abs", "round") or name in ELEMENT:
                vs = args + [v for k, v in kws.items() if k == "out"]
                if name in ("isin", "in1d"):
                    vs = args[:1]
                self.together(vs, n, f"np.{name}")
                return self.derived(vs, n, "mask" if name in MASKS else "col")
            if name in NEIGHBOUR:
                for v in args[:2] if name in ("trapz", "convolve", "correlate") else args[:1] or [a0]:
                    self.neighbours(v, n, f"np.{name}", env)
                return frozenset(r._replace(kind="col" if r.kind != "mask" else "mask", frame=r.frame if name == "roll" else r.frame + (("mask", name),), key=r.key if name == "roll" else None, copy=True)
                                 for r in self.rows(a0) if r.kind in ("col", "mask", "pos"))
            if name in ("where", "nonzero", "flatnonzero", "argwhere"):
                if name == "where" and len(n.args) == 3:
                    self.together(args, n, "np.where")
                    return self.derived(args, n)
                k = "wpos" if name in ("where", "nonzero") else "pos"
                return frozenset(Row(k, r.frame, None, r.uid or expr_key(n)[:200], True) for r in self.rows(a0) if r.kind in ("mask", "col"))
            if name in ("argsort", "lexsort"):
                return self.perm(a0, n)
            if name in ("sort", "sorted"):
                return self.sorted(a0, n, knode.get("order") or knode.get("key"))
            if name == "take" and len(args) > 1:
                return self.picked_by(a0, args[1], n)
            if name == "searchsorted" and args:
                if "sorter" not in knode and len(n.args) < 4:
                    self.searched(a0, n)
                return self.edges(a0)
            if name == "interp" and len(args) > 2:
                self.searched(args[1], n)
                self.together(args[1:3], n, "np.interp")
                return self.derived(args[:1], n)
            if name == "unique" and "return_index" in knode:
                self.neighbours(a0, n, "takes the first occurrence", env)
                return NONE
            return NONE
        if name in ("accumulate", "reduceat") and args:
            self.neighbours(a0, n, f".{name}()", env)
            return frozenset(r._replace(key=None, copy=True) for r in self.rows(a0) if r.kind in ("col", "mask"))
        if name == "DataFrame" and args:
            return a0
        if name == "calc_season" and len(args) > 1:
            return self.derived(args[:2], n)
        if name in ("append_fields", "drop_fields", "rename_fields", "rec_append_fields"):
            return a0
        t = None
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == self.me and self.cls is not None:
            g = self.project.find_method(self.cls, fn.attr)
            if g is not None and not g.is_property:
                t = (g, not g.is_static)
        if t is None:
            t = call_target(self.project, self.f, n)
        if t is not None:
            return self.into(n, t, args, kws, env)
        return NONE

    def into(self, n, t, args, kws, env):
        g, bound = t
        if not any(args) and not any(kws.values()) or self.depth > 5:
            return NONE
        names = [x.arg for x in g.node.args.posonlyargs + g.node.args.args]
        if bound and names:
            names = names[1:]
        given, back = {}, {}
        for i, (v, a) in enumerate(zip(args, n.args)):
            if isinstance(a, ast.Starred):
                break
            if i < len(names):
                given[names[i]] = v
                if isinstance(a, ast.Name):
                    back[names[i]] = a.id
        for k in n.keywords:
            if k.arg in g.all_params():
                given[k.arg] = kws[k.arg]
                if isinstance(k.value, ast.Name):
                    back[k.arg] = k.value.id
        cls = self.cls if g.cls is not None and self.cls is not None and g.cls in self.project.mro(self.cls) else g.cls
        ret, outs = self.an.summary(g, cls, given, self.depth + 1)
        for p, nm in back.items():
            old, new = given[p], outs.get(p, given[p])
            if new != old and len(self.rows(old)) == 1 and len(self.rows(new)) == 1 and nm in env:
                (o,), (w,) = self.rows(old), self.rows(new)
                if o.kind == "table" and w.kind == "table" and w.copy == o.copy and w.frame[: len(o.frame)] == o.frame and all(s[0] == "sort" for s in w.frame[len(o.frame):]) and w.key == "<in place>":
                    self.rearrange(env, o.frame, w.frame)
        return ret

    def rearrange(self, env, old, new):
        for k, v in list(env.items()):
            if not isinstance(v, Tup):
                env[k] = frozenset(r._replace(frame=new, key="<in place>" if r.kind == "table" else r.key) if r.frame == old and not (r.copy and r.kind != "table") else r for r in v)

    def perm(self, v, n):
        return frozenset(Row("perm", r.frame, r.key or expr_key(n)[:100], None, True) for r in self.rows(v) if r.kind in ("col", "mask", "pos") or r.kind == "table" and r.frame[0] != "visits")

    def picked_by(self, b, i, n):
        return self.picked(b, i, ast.copy_location(ast.Subscript(n, ast.Name("index", ast.Load()), ast.Load()), n), {})

    def edges(self, v):
        """where groups begin and end"""
        return frozenset(Row("edge", r.frame, r.key, None, True) for r in self.rows(v) if r.kind == "col")

    def order_key(self, o):
        if o is None:
            return None
        if isinstance(o, (ast.List, ast.Tuple)):
            return ",".join(self.column_key(e) for e in o.elts)
        return self.column_key(o)

    def sorted(self, v, n, order):
        out = set()
        for r in self.rows(v):
            if r.kind == "table" and order is None:
                # sorted by all its columns
                out.add(r._replace(frame=r.frame + (("sort", "all,columns"),), copy=True))
            elif r.kind in ("table", "col", "mask", "pos"):
                out.add(r._replace(frame=r.frame + (("sort", self.order_key(order) or r.key or "itself"),), copy=True))
        return frozenset(out)

    def searched(self, v, n):
        for r in self.rows(v):
            if r.kind not in ("col",):
                continue
            k = sorts(r.frame)
            if k is None and not self.an.strict:
                continue
            self.an.res.count("order_dependent_operations")
            if k is None:
                self.report("unsorted-search", n, "a search in an array", "that was not sorted first")
            elif r.key is not None and k != r.key and "," not in k and k != "itself" and (k[0] == "?") == (r.key[0] == "?") and not (TIME.search(k) and (DATE.search(r.key) or TIME.search(r.key))) and r.frame[0] != "?":
                self.report("unsorted-search", n, f"a search by {r.key!r} in an array", f"that is sorted by {k!r}")

    def method(self, n, fn, args, kws, knode, env):
        b = self.ev(fn.value, env)
        rs = self.rows(b)
        m = fn.attr
        at = fn.value.id if isinstance(fn.value, ast.Name) else "self." + fn.value.attr if isinstance(fn.value, ast.Attribute) and isinstance(fn.value.value, ast.Name) and fn.value.value.id == self.me else None
        if m == "sort" and "order" in knode and not any(r.kind == "table" for r in rs):
            # `order=` is only there for tables: what looked like a column was picked by rows
            rs, b = [], NONE
        if not rs and at and b == NONE and at != self.me and m == "sort" and "order" in knode:
            # some table: from here on its arrangement is known
            env[at] = frozenset([Row("table", ((at, id(n)), ("sort", self.order_key(knode["order"]))), None, None, False)])
            return NONE
        if not rs:
            if isinstance(fn.value, ast.Name) and fn.value.id == self.me:
                # another method may rearrange what the object holds
                for k in [k for k, v in env.items() if k.startswith("self.") and not isinstance(v, Tup) and any(isinstance(r.frame[0], tuple) for r in v)]:
                    env[k] = NONE
            return None
        if m == "sort":
            order = knode.get("order") or knode.get("by")
            key = self.order_key(order)
            tables = [r for r in rs if r.kind == "table"]
            if tables:
                for r in tables:
                    self.rearrange(env, r.frame, r.frame + (("sort", key or "all,columns"),))
                return NONE
            for r in rs:
                if r.kind == "col" and not r.copy:
                    self.report("rows-torn", n, f"sorting the column {r.key!r} in place", "moves its values to other rows of the table")
            if isinstance(fn.value, ast.Name):
                env[fn.value.id] = frozenset(r._replace(frame=r.frame + (("sort", r.key or "itself"),)) for r in rs)
            return NONE
        if m == "sort_values":
            o = knode.get("by") or (n.args[0] if n.args else None)
            new = frozenset(r._replace(frame=r.frame + (("sort", self.order_key(o) or "itself"),), copy=True) for r in rs)
            if "inplace" in knode and isinstance(fn.value, ast.Name):
                env[fn.value.id] = new
                return NONE
            return new
        if m in SAME_M:
            return frozenset(r._replace(copy=True) for r in rs)
        if m in NEIGHBOUR_M:
            self.neighbours(b, n, f".{m}()", env)
            return frozenset(r._replace(frame=r.frame + (("mask", m),), key=None, copy=True) for r in rs if r.kind == "col")
        if m == "argsort":
            return self.perm(b, n)
        if m == "searchsorted":
            if "sorter" not in knode:
                self.searched(b, n)
            return self.edges(b)
        if m in ("take", "compress") and args:
            return self.picked_by(b, args[0], n)
        if m == "nonzero":
            return frozenset(Row("wpos", r.frame, None, r.uid or expr_key(n)[:200], True) for r in rs)
        if m in ("clip", "abs", "isin", "isna", "notna", "isnull"):
            return self.derived([b], n, "mask" if m.startswith(("is", "not")) else "col")
        return NONE


class Analysis:
    def __init__(self, project, res):
        self.project, self.res = project, res
        self.memo, self.busy = {}, set()
        self.cols = {}
        self.strict = True

    def summary(self, f, cls, given, depth=0):
        k = (id(f.node), id(cls), tuple(sorted(((p, hash(v)) for p, v in given.items() if v != NONE))))
        if k in self.memo:
            return self.memo[k]
        if k in self.busy:
            return NONE, {}
        self.busy.add(k)
        self.res.count("functions_walked")
        out = Walk(self, f, cls, given, depth).run()
        self.busy.discard(k)
        self.memo[k] = out
        return out

    def column(self, cls, attr):
        """the default name of the column that an attribute names"""
        k = (id(cls), attr)
        if k not in self.cols:
            self.cols[k] = None
            for c in self.project.mro(cls) if cls is not None else []:
                f = getattr(c, "methods", {}).get("__init__")
                if f is None:
                    continue
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == attr for t in n.targets):
                        v = n.value
                        if isinstance(v, ast.Name):
                            v = f.defaults().get(v.id)
                        if isinstance(v, ast.Constant) and isinstance(v.value, str):
                            self.cols[k] = v.value
                            break
                if self.cols[k]:
                    break
        return self.cols[k]


def check(project, tier):
    res = Result()
    an = Analysis(project, res)
    for m in project.modules.values():
        for c in m.classes.values():
            fam = family(project, c)
            for base, meth in (("BaseStacker", "_run"), ("BaseSlicer", "setup_slicer"), ("BaseMap", "run")):
                f = project.find_method(c, meth) if base in fam else None
                if f is not None and len(f.params()) > 1:
                    res.count(meth)
                    an.summary(f, c, {f.params()[1]: frozenset([Row("table", ("visits",), None, None, False)])})
            if "BaseMetric" not in fam:
                continue
            f = project.find_method(c, "run")
            if f is None or len(f.params()) < 2 or re.search(r"metric_?val", f.params()[1]):
                continue
            res.count("metrics")
            p = f.params()[1]
            an.summary(f, c, {p: frozenset([Row("table", ("visits",), None, None, False)])})
    # elsewhere: arrays that were sorted are not paired with ones that were not
    an.strict = False
    from .aliasing import all_funcs

    for f in all_funcs(project):
        if f.relpath.startswith(("rubin_sim/maf/metrics", "rubin_sim/maf/maf_contrib", "rubin_sim/maf/stackers", "rubin_sim/maf/slicers")):
            continue
        res.count("other_functions")
        an.summary(f, f.cls, {p: frozenset([Row("table", (p,), None, None, False)]) for p in f.all_params() if p not in ("self", "cls")}, 4)
    res.guard("metrics", 120)
    res.guard("order_dependent_operations", 60)
    res.guard("row_by_row_combinations", 300)
    return res
