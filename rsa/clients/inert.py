"""No statement is inert: tests can go both ways, errors are raised, formatted text is complete, branches are reachable."""
import ast
import io
import string
import tokenize

from ..core import Result
from ..flow import Flow, S, const_of, start_facts
from .defassign import functions, local_names

# methods that change their receiver and return None: using the result is always a mistake
NONE_RESULT = {"sort", "append", "extend", "insert", "update", "clear", "reverse", "setflags", "savefig", "close", "commit"}
# functions/methods that only compute a value: discarding it is always a mistake
PURE_METHODS = {"replace", "strip", "lstrip", "rstrip", "lower", "upper", "split", "join", "format", "astype", "copy", "startswith", "endswith",
                "title", "zfill", "item", "tolist", "flatten", "reset_index", "set_index", "sort_values", "rename", "to_value", "filled",
                "compressed", "isoformat", "strftime", "total_seconds", "swapaxes", "transpose", "squeeze", "as_posix"}
INPLACE_KW = {"inplace", "out", "copy"}
PURE_NP = {"abs", "all", "any", "arange", "argsort", "array", "asarray", "ceil", "clip", "concatenate", "cos", "cumsum", "degrees", "diff", "divide",
           "exp", "floor", "hstack", "interp", "in1d", "isin", "isnan", "linspace", "log", "log10", "max", "mean", "median", "min", "mod", "ones",
           "percentile", "power", "radians", "ravel", "round", "searchsorted", "sin", "size", "sort", "sqrt", "std", "sum", "tan", "unique", "vstack",
           "where", "zeros", "append", "delete", "insert", "nanmean", "nanmedian", "rint", "sign", "square", "stack", "tile", "repeat"}
PURE_BUILTIN = {"sorted", "len", "str", "int", "float", "bool", "list", "tuple", "set", "dict", "abs", "min", "max", "sum", "round", "isinstance",
                "range", "zip", "enumerate", "map", "filter", "reversed", "hasattr", "repr", "type"}


def is_exception(project, m, node):
    f = node.func if isinstance(node, ast.Call) else node
    if not isinstance(f, ast.Name):
        return False
    import builtins
    b = getattr(builtins, f.id, None)
    if isinstance(b, type) and issubclass(b, BaseException):
        return True
    r = project.resolve(m, f.id)
    if r is not None and r[0] == "class":
        return any("Exception" in str(getattr(k, "name", k)) or "Error" in str(getattr(k, "name", k)) for k in project.mro(r[1]))
    return False


def const_truth(n):
    return isinstance(n, ast.Constant) and n.value is not Ellipsis


def listlike(n):
    return isinstance(n, (ast.List, ast.Tuple, ast.Set, ast.ListComp))


class Reach(Flow):
    """which statements some path reaches"""

    AT_LEAST_ONCE = False

    def __init__(self, fnode):
        super().__init__(fnode)
        self.seen = set()
        self.ife = {}
        self.busy = False

    def join(self, a, b):
        return a

    def stmt(self, st, states):
        self.seen.add(id(st))
        if isinstance(st, ast.Assign) and isinstance(st.value, ast.IfExp):
            for s in states:
                self.expr(st.value, s)
        return super().stmt(st, states)

    def expr(self, node, s):
        if not self.busy:
            self.busy = True
            st = [node]
            while st:
                x = st.pop()
                if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    continue
                if isinstance(x, ast.IfExp):
                    r = self.ife.setdefault(id(x), (x, set()))[1]
                    r |= {b for _, b in self.cond(x.test, s)}
                    st.append(x.test)
                    continue
                st.extend(ast.iter_child_nodes(x))
            self.busy = False
        # a call may change anything it can reach: own attributes, its arguments and its receiver
        if s.facts and any(isinstance(x, (ast.Call, ast.Await)) for x in ast.walk(node)):
            gone = set()
            for x in ast.walk(node):
                if isinstance(x, ast.Call):
                    for y in [x.func] + x.args + [k.value for k in x.keywords]:
                        gone |= {z.id for z in ast.walk(y) if isinstance(z, ast.Name)}
            f = {k: v for k, v in s.facts.items() if not (("." in k or "[" in k or "(" in k) and (self.deps.get(k, set()) & gone or "self" in self.deps.get(k, set())))}
            s = S(f, s.data)
        return [s]

    def learn_assign(self, s, target, value):
        return s   # only tests, not configuration constants, make a branch impossible


def branches(chain):
    out = []
    while True:
        out.append(chain)
        if len(chain.orelse) == 1 and isinstance(chain.orelse[0], ast.If):
            chain = chain.orelse[0]
        else:
            return out


def check_statements(project, tier):
    res = Result()
    for m in project.modules.values():
        scopes = [(m.tree, "<module>")]
        for mm, q, node in ((m, q, n) for m2, q, n in functions_of(m)):
            scopes.append((node, q))
        for node, q in scopes:
            w = f"{m.relpath}:{q}"
            fnames = {}
            for n in walk_own(node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        for e in ast.walk(t):
                            if isinstance(e, ast.Name) and isinstance(e.ctx, ast.Store):
                                fnames[e.id] = fnames.get(e.id, True) and e is t and fancy(n.value, {})
                elif isinstance(n, (ast.For, ast.comprehension)):
                    for e in ast.walk(n.target):
                        if isinstance(e, ast.Name):
                            fnames[e.id] = False
            for n in walk_own(node):
                if isinstance(n, ast.Expr):
                    expr_stmt(project, m, res, w, n)
                elif isinstance(n, ast.Raise) and n.exc is not None:
                    res.count("raises")
                    if isinstance(n.exc, ast.Constant) or (isinstance(n.exc, ast.Name) and n.exc.id == "NotImplemented"):
                        res.add("raise-non-exception", w, ast.unparse(n.exc)[:60], "raises something that is not an exception", n.lineno)
                elif isinstance(n, ast.Assert) and isinstance(n.test, ast.Tuple) and n.test.elts:
                    res.add("assert-tuple", w, ast.unparse(n.test)[:60], "assertion on a tuple is always true", n.lineno)
                elif isinstance(n, (ast.Assign, ast.AugAssign)):
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        res.count("assignments")
                        b = t
                        while isinstance(b, ast.Subscript) and (b is t or not fancy(b.slice, fnames)):
                            b = b.value
                        if isinstance(b, ast.Subscript) and b is not t:
                            # x[mask][k] = v: the masked selection is a copy
                            if True:
                                res.add("store-to-copy", w, ast.unparse(t)[:80], "stores into a copy made by the inner selection: the original is unchanged", n.lineno)
                        elif isinstance(t, ast.Subscript) and isinstance(b, ast.Call) and fresh_call(b):
                            res.add("store-to-copy", w, ast.unparse(t)[:80], "stores into a temporary that is dropped at once", n.lineno)
                elif isinstance(n, ast.If):
                    if_stmt(res, w, n)
                elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitAnd, ast.BitOr)):
                    tauto(res, w, n)
                elif isinstance(n, (ast.BoolOp,)):
                    tauto(res, w, n)
                    for v in n.values:
                        if isinstance(v, ast.Constant) and v.value not in (None, "") and isinstance(v.value, str) and len(n.values) > 1 \
                                and any(isinstance(o, ast.Compare) for o in n.values):
                            res.add("constant-condition", w, ast.unparse(n)[:80], "a string constant stands where a comparison was meant: the test is always true", n.lineno)
                elif isinstance(n, ast.Compare):
                    compare(res, w, n)
                elif isinstance(n, ast.Dict):
                    ks = [ast.unparse(k) for k in n.keys if isinstance(k, ast.Constant)]
                    res.count("dict_displays")
                    for k in sorted({k for k in ks if ks.count(k) > 1}):
                        res.add("duplicate-key", w, k, f"key {k} appears twice in one dictionary: the first value is lost", n.lineno)
                elif isinstance(n, ast.Call):
                    call(res, w, n)
                if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
                    percent(res, w, n)
    res.guard("expression_statements", 2500)
    return res


def functions_of(m):
    stack = [(m.tree, "")]
    while stack:
        node, q = stack.pop()
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                nq = f"{q}.{c.name}" if q else c.name
                yield m, nq, c
                stack.append((c, nq))
            elif isinstance(c, ast.ClassDef):
                stack.append((c, f"{q}.{c.name}" if q else c.name))
            else:
                stack.append((c, q))


def walk_own(node):
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        yield n
        stack.extend(ast.iter_child_nodes(n))


def expr_stmt(project, m, res, w, st):
    v = st.value
    res.count("expression_statements")
    if isinstance(v, ast.Constant) or isinstance(v, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)):
        return
    t = ast.unparse(v)[:80]
    if isinstance(v, ast.Call):
        f = v.func
        if is_exception(project, m, v):
            res.add("error-not-raised", w, t, "an exception is built but not raised: the error is ignored", st.lineno)
        elif isinstance(f, ast.Name) and f.id in PURE_BUILTIN and project.resolve(m, f.id) is None:
            res.add("result-dropped", w, t, f"{f.id}() only computes a value, which is dropped", st.lineno)
        elif isinstance(f, ast.Attribute):
            base = ast.unparse(f.value)
            if base in ("np", "numpy", "np.ma", "ma") and f.attr in PURE_NP and not any(k.arg == "out" for k in v.keywords):
                res.add("result-dropped", w, t, f"{base}.{f.attr} only computes a value, which is dropped", st.lineno)
            elif f.attr in PURE_METHODS and base not in ("os", "shutil", "self", "logging") and not any(k.arg in INPLACE_KW for k in v.keywords) \
                    and not base.split(".")[0] in m.imports:
                res.add("result-dropped", w, t, f".{f.attr}() only computes a value, which is dropped", st.lineno)
        return
    if isinstance(v, ast.Compare):
        res.add("inert-statement", w, t, "a comparison stands alone as a statement: nothing is assigned or tested", st.lineno)
    elif isinstance(v, (ast.BinOp, ast.UnaryOp, ast.Name, ast.Attribute, ast.Subscript, ast.List, ast.Tuple, ast.BoolOp, ast.JoinedStr, ast.Dict, ast.Set, ast.IfExp)):
        if isinstance(v, ast.Attribute) or isinstance(v, ast.Subscript) or isinstance(v, ast.Name):
            return  # may be a property access or an existence probe
        if not any(isinstance(x, (ast.Name, ast.Call)) for x in ast.walk(v)):
            return
        if isinstance(v, (ast.IfExp, ast.BoolOp)) and any(isinstance(x, ast.Call) for x in ast.walk(v)):
            return
        res.add("inert-statement", w, t, "an expression stands alone as a statement: its value is dropped", st.lineno)


NEG = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
PURE = set("len size abs min max sum mean median std lower upper strip lstrip rstrip any all shape unique round floor ceil sqrt log10 log exp radians degrees "
           "sin cos tan count split startswith endswith get isnan where nonzero str int float".split())


def repeatable(e):
    """gives the same value each time it is evaluated"""
    for x in ast.walk(e):
        if isinstance(x, ast.Call):
            f = x.func
            if (f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")) not in PURE:
                return False
        elif isinstance(x, (ast.Await, ast.Yield, ast.NamedExpr)):
            return False
    return True


def atoms(v, op, neg):
    """(left, comparison, right) of the parts of a conjunction (of a disjunction: of its negation)"""
    if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not) and isinstance(v.operand, ast.Compare) and len(v.operand.ops) == 1:
        v, neg = v.operand, not neg
    if isinstance(v, ast.BoolOp) and isinstance(v.op, op) or isinstance(v, ast.BinOp) and isinstance(v.op, ast.BitAnd if op is ast.And else ast.BitOr):
        for x in (v.values if isinstance(v, ast.BoolOp) else (v.left, v.right)):
            yield from atoms(x, op, neg)
    elif isinstance(v, ast.Compare) and (len(v.ops) == 1 or not neg):
        left = v.left
        for o, r in zip(v.ops, v.comparators):
            if isinstance(o, (ast.Is, ast.IsNot)) and any(isinstance(x, ast.Constant) and x.value is None for x in (left, r)):
                o = ast.Eq() if isinstance(o, ast.Is) else ast.NotEq()
            if type(o) in NEG:
                yield left, NEG[type(o)] if neg else type(o), r
            left = r


def impossible(parts):
    """no value satisfies all of these comparisons"""
    by = {}
    for l, o, r in parts:
        if isinstance(l, ast.Constant) or not isinstance(r, ast.Constant) and norm(l) > norm(r):
            l, o, r = r, FLIP[o], l
        if repeatable(l) and repeatable(r) and not isinstance(l, ast.Constant):
            ok, v = const_of(r)
            if ok and isinstance(v, (int, float)) and not isinstance(v, bool):
                by.setdefault((norm(l), "number"), []).append((o, v))
            elif ok:
                by.setdefault((norm(l), "other"), []).append((o, v))
            else:
                by.setdefault((norm(l), norm(r)), []).append((o, 0))
    for (_, kind), cs in by.items():
        eq = [v for o, v in cs if o is ast.Eq]
        ne = [v for o, v in cs if o is ast.NotEq]
        if any(repr(x) != repr(eq[0]) and x != eq[0] for x in eq[1:]) or any(repr(x) == repr(y) for x in eq for y in ne):
            return True
        if kind == "other":
            continue
        lo = max([(v, o is ast.Gt) for o, v in cs if o in (ast.Gt, ast.GtE)], default=None)
        hi = min([(v, o is not ast.Lt) for o, v in cs if o in (ast.Lt, ast.LtE)], default=None)
        for x in eq:
            if lo and (x < lo[0] or x == lo[0] and lo[1]) or hi and (x > hi[0] or x == hi[0] and not hi[1]):
                return True
        if lo and hi and (lo[0] > hi[0] or lo[0] == hi[0] and (lo[1] or not hi[1])):
            return True
    return False


def tauto(res, w, n):
    """x != a or x != b (always true), x == a and x == b, x < 1 and x > 1 (never true)"""
    res.count("compound_conditions")
    isand = isinstance(n.op, (ast.And, ast.BitAnd))
    op = ast.And if isand else ast.Or
    if impossible(list(atoms(n, op, not isand))):
        res.add("constant-condition", w, norm(n)[:80], "this condition is always " + ("false" if isand else "true"), n.lineno)


def fancy(sl, names):
    """boolean/index-array selection: comparison, np.where, or a local that only ever holds one"""
    if isinstance(sl, ast.Name):
        return bool(names.get(sl.id))
    if isinstance(sl, ast.Subscript) and isinstance(sl.slice, ast.Constant) and sl.slice.value == 0:
        sl = sl.value
    if isinstance(sl, ast.Compare):
        return True
    if isinstance(sl, ast.BinOp) and isinstance(sl.op, (ast.BitAnd, ast.BitOr)):
        return True
    if isinstance(sl, ast.Call) and ast.unparse(sl.func) in ("np.where", "numpy.where", "np.argsort", "np.isin", "np.in1d", "np.isnan", "np.argwhere"):
        return True
    return False


def fresh_call(c):
    f = ast.unparse(c.func)
    return f in ("np.array", "np.copy", "copy.copy", "copy.deepcopy", "deepcopy", "np.zeros", "np.ones", "np.concatenate", "np.where", "list", "dict", "sorted") \
        or (isinstance(c.func, ast.Attribute) and c.func.attr in ("copy", "astype", "tolist", "flatten", "filled", "compressed"))


def norm(n):
    return ast.unparse(n)


def if_stmt(res, w, n):
    res.count("branches")
    ch = branches(n)
    seen = {}
    for c in ch:
        k = norm(c.test)
        if k in seen and not any(isinstance(x, ast.Call) for x in ast.walk(c.test)):
            res.add("repeated-condition", w, k[:80], "the same condition is tested twice in one if/elif chain: the second branch is never taken", c.lineno)
        seen[k] = 1
    if n.orelse and [norm(x) for x in n.body] == [norm(x) for x in n.orelse]:
        res.add("identical-branches", w, norm(n.test)[:80], "both branches do the same, so the condition has no effect", n.lineno)


def compare(res, w, n):
    res.count("comparisons")
    if len(n.ops) != 1:
        if impossible(list(atoms(n, ast.And, False))):
            res.add("constant-condition", w, norm(n)[:80], "this condition is always false", n.lineno)
        return
    op, l, r = n.ops[0], n.left, n.comparators[0]
    if isinstance(op, (ast.Is, ast.IsNot)):
        for x in (l, r):
            if isinstance(x, ast.Constant) and isinstance(x.value, (str, int, float, bytes)) and not isinstance(x.value, bool):
                res.add("identity-comparison", w, norm(n)[:80], "identity comparison with a literal", n.lineno)
            elif isinstance(x, (ast.List, ast.Dict, ast.Tuple, ast.Set)):
                res.add("identity-comparison", w, norm(n)[:80], "identity comparison with a new object is always false", n.lineno)
            elif isinstance(x, ast.Name) and x.id in ("isinstance", "list", "str", "len", "int", "float", "dict") and isinstance(l, (ast.Name, ast.Attribute)) and not (isinstance(l, ast.Name) and l.id in ("dtype", "type")):
                if x.id == "isinstance" or x.id == "len":
                    res.add("identity-comparison", w, norm(n)[:80], f"compares with the function {x.id} itself", n.lineno)
    if isinstance(op, (ast.In, ast.NotIn)) and isinstance(r, ast.Constant) and isinstance(r.value, str) and len(r.value) > 1 and isinstance(l, (ast.Name, ast.Attribute, ast.Subscript)):
        # `x in ("abc")`: substring test where membership was meant -- only when the source has the parentheses of a one-element tuple
        res.count("substring_tests")
    if isinstance(op, (ast.Eq, ast.NotEq)):
        if norm(l) == norm(r) and not any(isinstance(x, ast.Call) for x in ast.walk(l)):
            res.add("self-comparison", w, norm(n)[:80], "compares a value with itself", n.lineno)
        for x in (l, r):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in NONE_RESULT and x.func.attr != "update":
                res.add("none-result-used", w, norm(n)[:80], f".{x.func.attr}() returns None, so this comparison does not look at the data", n.lineno)
        for a, b in ((l, r), (r, l)):
            if listlike(a) and isinstance(b, ast.Constant) and isinstance(b.value, (str, int, float)):
                res.add("constant-condition", w, norm(n)[:80], "a list is never equal to a scalar", n.lineno)


def fields_of(fmt):
    """-> (auto count, max explicit index, names) of a str.format template, or None"""
    auto, idx, names = 0, -1, set()
    try:
        for _, f, spec, _ in string.Formatter().parse(fmt):
            for x in [f] + ([g for _, g, _, _ in string.Formatter().parse(spec)] if spec else []):
                if x is None:
                    continue
                h = x.split(".")[0].split("[")[0]
                if h == "":
                    auto += 1
                elif h.isdigit():
                    idx = max(idx, int(h))
                else:
                    names.add(h)
    except ValueError:
        return None
    return auto, idx, names


def call(res, w, n):
    f = n.func
    if isinstance(f, ast.Attribute) and f.attr == "format" and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str):
        res.count("format_templates")
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return
        x = fields_of(f.value.value)
        if x is None:
            return
        auto, idx, names = x
        need = max(auto, idx + 1)
        if need > len(n.args):
            res.add("format-mismatch", w, repr(f.value.value)[:70], f"the text needs {need} values, {len(n.args)} are given", n.lineno)
        elif need < len(n.args):
            res.add("format-mismatch", w, repr(f.value.value)[:70], f"{len(n.args)} values are given, the text uses {need}", n.lineno)
        kw = {k.arg for k in n.keywords}
        if names - kw:
            res.add("format-mismatch", w, repr(f.value.value)[:70], f"the text needs {sorted(names - kw)}, which is not given", n.lineno)
        elif kw - names:
            res.add("format-mismatch", w, repr(f.value.value)[:70], f"{sorted(kw - names)} is given but not used in the text", n.lineno)
    import re
    fn = ast.unparse(f)
    if fn in ("warnings.warn", "print", "warn") or fn.split(".")[-1].endswith(("Error", "Exception", "Warning")):
        for a in n.args[:1]:
            if isinstance(a, ast.Constant) and isinstance(a.value, str) and re.search(r"%[-+0]?\d*(\.\d+)?[sdfgir](?![\w])", a.value.replace("%%", "")):
                res.count("message_texts")
                res.add("placeholder-not-filled", w, repr(a.value)[:70], "the text contains a % conversion that is never given a value", n.lineno)


def percent(res, w, n):
    if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
        return
    res.count("percent_templates")
    import re
    t = n.left.value.replace("%%", "")
    conv = re.findall(r"%(?:\((\w+)\))?[-+ #0]*(\*|\d+)?(?:\.(?:\*|\d+))?[hlL]?([diouxXeEfFgGcrsa])", t)
    if t.count("%") != len(conv):
        res.add("format-mismatch", w, repr(n.left.value)[:70], "the text contains an incomplete conversion", n.lineno)
        return
    if conv and all(c[0] for c in conv):
        if isinstance(n.right, ast.Dict) and all(isinstance(k, ast.Constant) for k in n.right.keys):
            miss = {c[0] for c in conv} - {k.value for k in n.right.keys}
            if miss:
                res.add("format-mismatch", w, repr(n.left.value)[:70], f"the text needs {sorted(miss)}", n.lineno)
        return
    stars = sum(1 for c in conv if c[1] == "*")
    need = len(conv) + stars
    if isinstance(n.right, ast.Tuple):
        if not any(isinstance(e, ast.Starred) for e in n.right.elts) and len(n.right.elts) != need:
            res.add("format-mismatch", w, repr(n.left.value)[:70], f"the text needs {need} values, {len(n.right.elts)} are given", n.lineno)
    elif need != 1 and isinstance(n.right, (ast.Constant, ast.JoinedStr, ast.BinOp, ast.Attribute, ast.Subscript)) and need == 0:
        res.add("format-mismatch", w, repr(n.left.value)[:70], "the text uses no value, one is given", n.lineno)
    elif need > 1 and isinstance(n.right, (ast.Constant, ast.JoinedStr)):
        res.add("format-mismatch", w, repr(n.left.value)[:70], f"the text needs {need} values, one is given", n.lineno)


# ---------------------------------------------------------------- none results, missing f, implicit concatenation, reachability
def check_values(project, tier):
    res = Result()
    for m in project.modules.values():
        for mm, q, node in functions_of(m):
            w = f"{m.relpath}:{q}"
            names = local_names(node) | {a.arg for a in node.args.args + node.args.kwonlyargs} | ({"self"} if "." in q else set())
            fmtd = set()
            for n in ast.walk(node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("format", "format_map", "safe_substitute"):
                    for x in ast.walk(n.func.value):
                        fmtd.add(id(x))
            doc = set()
            for n in ast.walk(node):
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                    doc.add(id(n.value))
                elif isinstance(n, ast.JoinedStr):
                    for x in ast.walk(n):
                        doc.add(id(x))
            for n in walk_own(node):
                if isinstance(n, ast.Constant) and isinstance(n.value, str) and "{" in n.value and id(n) not in doc and id(n) not in fmtd:
                    x = fields_of(n.value)
                    if x is None:
                        continue
                    _, _, fn = x
                    hit = sorted(k for k in fn if k in names)
                    res.count("brace_strings")
                    if hit and not later_formatted(node, n):
                        res.add("placeholder-not-filled", w, repr(n.value)[:70], f"the text mentions {{{hit[0]}}}, which is never filled in (missing f prefix)", n.lineno)
                elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) \
                        and n.value.func.attr in ("sort", "append", "extend", "insert", "reverse") and not isinstance(n.value.func.value, ast.Call):
                    b = ast.unparse(n.value.func.value)
                    if b.split(".")[0] in m.imports:
                        continue
                    res.add("none-result-used", w, ast.unparse(n)[:80], f".{n.value.func.attr}() returns None", n.lineno)
            # reachability
            r = Reach(node)
            r.run(frozenset(), start_facts(project, m, q, r))
            res.count("functions")
            for n, r2 in r.ife.values():
                res.count("conditional_expressions")
                if len(r2) < 2 and not isinstance(n.test, ast.Constant):
                    res.add("branch-never-taken", w, ast.unparse(n.test)[:80], f"the tests before it make this condition always {'true' if True in r2 else 'false'}: one value is never chosen", n.lineno)
            done = False
            for n in walk_own(node):
                if isinstance(n, ast.If) and id(n) in r.seen and id(n.body[0]) not in r.seen and not isinstance(n.test, ast.Constant):
                    res.add("branch-never-taken", w, ast.unparse(n.test)[:80], "the tests and assignments before it make this condition impossible: the branch is never taken", n.lineno)
                for blk in ("body", "orelse", "finalbody"):
                    b = getattr(n, blk, None)
                    if isinstance(b, list):
                        done = unreachable(res, w, b, r, done)
            unreachable(res, w, node.body, r, done)
    # adjacent string literals inside a list of strings
    for m in project.modules.values():
        concat(res, m)
    return res


def check_loops(project, tier):
    """a loop whose only products are variables nobody reads afterwards does nothing"""
    from .effects import Live

    class L(Live):
        def __init__(self, f):
            super().__init__(f)
            self.after = {}

        def stmt(self, st, out, brk, cont, exc):
            if isinstance(st, (ast.For, ast.While)):
                self.after[id(st)] = self.after.get(id(st), frozenset()) | out | exc
            return super().stmt(st, out, brk, cont, exc)

    res = Result()
    for m, q, node in functions(project):
        lv = L(node).run()
        for n in walk_own(node):
            if isinstance(n, (ast.For, ast.While)):
                res.count("loops")
                if n.orelse:
                    continue
                stores = silent(n.body)
                if stores is None or not stores:
                    continue
                if not (stores & (lv.after.get(id(n), frozenset()) | lv.keep)):
                    hd = ast.unparse(n).split(":\n")[0]
                    res.add("loop-without-effect", f"{m.relpath}:{q}", hd[:80],
                            f"nothing this loop computes ({', '.join(sorted(stores))}) is used after it, and it changes nothing else", n.lineno)
    res.guard("loops", 800)
    return res


def silent(body):
    """names stored by a block that has no other effect; None when it may have one"""
    out = set()
    for st in body:
        if isinstance(st, (ast.Pass, ast.Break, ast.Continue)):
            continue
        if isinstance(st, ast.Assign):
            for t in st.targets:
                for e in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if not isinstance(e, ast.Name):
                        return None
                    out.add(e.id)
            if any(isinstance(x, (ast.Yield, ast.Await, ast.NamedExpr)) or (isinstance(x, ast.Call) and effectful(x)) for x in ast.walk(st.value)):
                return None
        elif isinstance(st, ast.AugAssign):
            if not isinstance(st.target, ast.Name):
                return None
            out.add(st.target.id)
            if any(isinstance(x, ast.Call) and effectful(x) for x in ast.walk(st.value)):
                return None
        elif isinstance(st, ast.If):
            a, b = silent(st.body), silent(st.orelse)
            if a is None or b is None or any(isinstance(x, ast.Call) and effectful(x) for x in ast.walk(st.test)):
                return None
            out |= a | b
        elif isinstance(st, ast.For):
            a = silent(st.body)
            if a is None or st.orelse:
                return None
            out |= a
        elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
            continue
        else:
            return None
    return out


def effectful(call):
    f = call.func
    n = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
    if n.startswith("_check") or n.startswith("check_") or n.startswith("is_") or n.startswith("get") or n.startswith("calc"):
        return False
    if isinstance(f, ast.Name) and n in PURE_BUILTIN:
        return False
    if isinstance(f, ast.Attribute) and (ast.unparse(f.value) in ("np", "numpy", "math", "hp") or n in PURE_METHODS):
        return False
    return True


def unreachable(res, w, body, r, done):
    for a, b in zip(body, body[1:]):
        if id(a) in r.seen and id(b) not in r.seen and isinstance(a, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            res.add("unreachable", w, ast.unparse(b)[:70], "this statement follows a return/raise/break and is never executed", b.lineno)
            return True
    return done


def later_formatted(fnode, const):
    """the literal is bound to a name that is formatted later"""
    for n in ast.walk(fnode):
        if isinstance(n, ast.Assign) and n.value is const and isinstance(n.targets[0], ast.Name):
            nm = n.targets[0].id
            for x in ast.walk(fnode):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("format", "format_map") \
                        and isinstance(x.func.value, ast.Name) and x.func.value.id == nm:
                    return True
        if isinstance(n, ast.Call) and any(const in (a, getattr(a, "value", None)) for a in n.args + [k.value for k in n.keywords]):
            if isinstance(n.func, (ast.Name, ast.Attribute)) and (getattr(n.func, "id", getattr(n.func, "attr", "")) in ("compile", "Template", "add_argument", "sub", "match")):
                return True
    return False


def concat(res, m):
    """['a' 'b', 'c'] -- two literals on one line of a list/tuple/set of strings"""
    src = m.source if hasattr(m, "source") else open(m.path).read()
    lines = src.splitlines()
    for n in ast.walk(m.tree):
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)) and len(n.elts) >= 2 and all(isinstance(e, ast.Constant) and isinstance(e.value, str) for e in n.elts):
            res.count("string_lists")
            for e in n.elts:
                seg = ast.get_source_segment(src, e)
                if seg is None:
                    continue
                try:
                    toks = [t for t in tokenize.generate_tokens(io.StringIO("(" + seg + ")").readline) if t.type == tokenize.STRING]
                except (tokenize.TokenError, SyntaxError, IndentationError):
                    continue
                if len(toks) > 1 and all(len(t.string) < 25 for t in toks):
                    res.add("missing-comma", f"{m.relpath}:<strings>", seg[:60], "two string literals run together inside a list of strings (missing comma)", e.lineno)
