"""Omitting an optional argument never leads to None being used as a value."""
import ast

from ..core import Result
from ..flow import S, Flow
from .defassign import functions

ARITH = (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.FloorDiv, ast.Mod, ast.Pow, ast.MatMult)
NONE_OK = {"__class__", "__doc__"}
EXTNAMES = {"np", "numpy", "hp", "pd", "math"}
NUMERIC = {"radians", "degrees", "sin", "cos", "tan", "sqrt", "log10", "log", "exp", "deg2rad", "rad2deg", "floor", "ceil"}


class Null(Flow):
    def __init__(self, fnode, report, count, callees, watch=None):
        super().__init__(fnode)
        self.callees = callees
        self.globals = {n for x in ast.walk(fnode) if isinstance(x, ast.Global) for n in x.names}
        self.report, self.count = report, count
        self.safe = 0
        self.watch = watch

    def join(self, a, b):
        return a if a == b else None

    def isnull(self, node, s):
        if not isinstance(node, (ast.Name, ast.Attribute)):
            return False
        k = self.keyof(node, s)
        f = s.facts.get(k)
        return f == ("eq", None)

    def use(self, node, s, how):
        self.count()
        if self.isnull(node, s) and not self.safe:
            self.report(node, s, how)
            # past this point the program has failed; treat as known non-null to avoid repeats
            return self._put(self.forget(s, {self.keyof(node, s)}), self.keyof(node, s), node, "ne", None)
        return s

    def expr(self, node, s):
        if node is None:
            return [s]
        if isinstance(node, ast.BoolOp):
            out, live = [], [s]
            isand = isinstance(node.op, ast.And)
            for v in node.values:
                nxt = []
                for x in live:
                    for t, b in self.cond(v, x):
                        (nxt if b == isand else out).append(t)
                live = nxt
            return self.squash(out + live)
        if isinstance(node, ast.IfExp):
            out = []
            for t, b in self.cond(node.test, s):
                out += self.expr(node.body if b else node.orelse, t)
            return self.squash(out)
        if isinstance(node, ast.Lambda):
            return [s]
        if isinstance(node, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            g = node.generators[0]
            cur = self.expr(g.iter, s)
            return [self.use(g.iter, x, "iterated over") for x in cur]
        cur = [s]
        for c in ast.iter_child_nodes(node):
            if isinstance(c, ast.expr):
                cur = [t for x in cur for t in self.expr(c, x)]
            elif isinstance(c, ast.keyword):
                cur = [t for x in cur for t in self.expr(c.value, x)]
        cur = [self.check(node, x) for x in cur]
        if isinstance(node, ast.Call):
            cur = [self.after_call(node, x) for x in cur]
        return cur

    def after_call(self, call, s):
        """facts a call may invalidate: own attributes, module globals, arguments the callee itself checks for None"""
        drop = set()
        root = call.func
        while isinstance(root, (ast.Attribute, ast.Call)):
            root = root.value if isinstance(root, ast.Attribute) else root.func
        passed = [a for a in call.args] + [k.value for k in call.keywords]
        if isinstance(root, ast.Name) and root.id in ("self", "super") or any(isinstance(a, ast.Name) and a.id == "self" for a in passed):
            drop |= {k for k in s.facts if k.startswith("self.")}
        drop |= {k for k in s.facts if k in self.globals}
        for cl, off in self.callees(call):
            for n, a in call_pairs(cl, off, call):
                if isinstance(a, (ast.Name, ast.Attribute)) and n in none_tested(cl):
                    drop.add(self.keyof(a, s))
        f = {k: v for k, v in s.facts.items() if not (k in drop or (self.deps.get(k, set()) & drop))} if drop else s.facts
        return S(f, s.data) if drop else s

    def check(self, node, s):
        if isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load):
            if node.attr in NONE_OK:
                return s
            return self.use(node.value, s, f"attribute .{node.attr} read")
        if isinstance(node, ast.Subscript):
            return self.use(node.value, s, "indexed")
        if isinstance(node, ast.Call):
            s = self.use(node.func, s, "called")
            if isinstance(node.func, ast.Name) and node.func.id in ("len", "iter", "float", "int", "sum", "max", "min", "sorted", "enumerate", "zip", "range", "abs", "round", "open") and node.args:
                for a in node.args:
                    s = self.use(a, s, f"passed to {node.func.id}()")
            if isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Name) and node.func.value.id in EXTNAMES and node.func.attr in NUMERIC and node.args:
                s = self.use(node.args[0], s, f"passed to {node.func.attr}()")
            if ast.unparse(node.func) in ("os.path.join", "os.path.split", "os.path.exists", "os.path.isfile", "os.path.isdir", "os.path.basename", "os.path.dirname", "os.path.splitext", "np.loadtxt", "np.load"):
                for a in node.args:
                    s = self.use(a, s, f"passed to {ast.unparse(node.func)}()")
            for cl, off in self.callees(node):
                for n, a in call_pairs(cl, off, node):
                    if isinstance(a, (ast.Name, ast.Attribute)) and must_deref(cl, n):
                        s = self.use(a, s, f"passed to {cl.name}(), which uses its {n!r} as a value")
            for a in node.args:
                if isinstance(a, ast.Starred):
                    s = self.use(a.value, s, "unpacked")
            for k in node.keywords:
                if k.arg is None:
                    s = self.use(k.value, s, "unpacked")
            return s
        if isinstance(node, ast.BinOp) and isinstance(node.op, ARITH):
            if isinstance(node.op, ast.Mod) and isinstance(node.left, (ast.Constant, ast.JoinedStr)):
                return s
            s = self.use(node.left, s, "used in arithmetic")
            return self.use(node.right, s, "used in arithmetic")
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Invert)):
            return self.use(node.operand, s, "negated")
        if isinstance(node, ast.Compare):
            prev = node.left
            for op, c in zip(node.ops, node.comparators):
                if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                    s = self.use(prev, s, "compared by size")
                    s = self.use(c, s, "compared by size")
                elif isinstance(op, (ast.In, ast.NotIn)):
                    s = self.use(c, s, "searched")
                prev = c
        return s

    def bind(self, target, s, value=None):
        if isinstance(target, ast.Subscript):
            for x in self.expr(target.slice, s):
                s = x
            s = self.use(target.value, s, "item assigned")
        elif isinstance(target, ast.Attribute):
            s = self.use(target.value, s, "attribute assigned")
        elif isinstance(target, (ast.Tuple, ast.List)) and value is not None:
            s = self.use(value, s, "unpacked")
        return [s]

    def bind_name(self, name, s):
        return self.forget(s, {name})

    def do_For(self, st, states):
        states = self.exprs([st.iter], states)
        states = [self.use(st.iter, s, "iterated over") for s in states]
        return super().do_For(st, states)

    def do_Try(self, st, states):
        caught = any(h.type is None or any(e in ast.unparse(h.type) for e in ("TypeError", "AttributeError", "Exception", "ValueError")) for h in st.handlers)
        # uses inside such a try are handled by it
        if caught:
            self.safe += 1
            save_body = st
            o = super().do_Try(st, states)
            self.safe -= 1
            return o
        return super().do_Try(st, states)


def call_pairs(cl, off, call):
    names = [x.arg for x in cl.args.posonlyargs + cl.args.args][off:]
    pairs = []
    for n, a in zip(names, call.args):
        if isinstance(a, ast.Starred):
            break
        pairs.append((n, a))
    return pairs + [(k.arg, k.value) for k in call.keywords if k.arg]


_MUST = {}


def must_deref(fnode, param):
    """does every normal way through the function use this parameter as a value?"""
    k = (id(fnode), param)
    if k not in _MUST:
        _MUST[k] = (fnode, False)
        if all(p.arg != param for p in fnode.args.posonlyargs + fnode.args.args + fnode.args.kwonlyargs):
            return False
        hit = []
        w = Null(fnode, lambda n, s, how: hit.append(n) if isinstance(n, ast.Name) and n.id == param else None, lambda: None, lambda call: [])
        w.deps[param] = {param}
        w.run(None, {param: ("eq", None)})
        ends = [s for kind, s, _ in w.exits if kind in ("fall", "return")]
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fnode))
        _MUST[k] = (fnode, bool(hit) and bool(ends) and not gen and all(s.facts.get(param) != ("eq", None) for s in ends) and not reassigned_first(fnode, param, hit))
    return _MUST[k][1]


def reassigned_first(fnode, param, hit):
    """a path on which the parameter is given another value without having been used"""
    first = min(n.lineno for n in hit)
    return any(isinstance(n, ast.Name) and n.id == param and isinstance(n.ctx, (ast.Store, ast.Del)) and n.lineno <= first for n in ast.walk(fnode))


def none_tested(fnode):
    """parameters a function compares with None"""
    return {c.left.id for c in ast.walk(fnode) if isinstance(c, ast.Compare) and isinstance(c.left, ast.Name)
            and isinstance(c.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and isinstance(c.comparators[0], ast.Constant)
            and c.comparators[0].value is None}


def co_supplied(fnode):
    """optional parameters whose joint omission the function itself rejects: they are a group, not independently optional"""
    out = set()
    for n in ast.walk(fnode):
        if isinstance(n, ast.If) and n.body and isinstance(n.body[-1], ast.Raise):
            t = {c.left.id for c in ast.walk(n.test) if isinstance(c, ast.Compare) and isinstance(c.left, ast.Name)
                 and isinstance(c.ops[0], (ast.Is, ast.IsNot)) and isinstance(c.comparators[0], ast.Constant)}
            if len(t) > 1:
                out |= t
    return out


# parameters that the framework always supplies although their signature allows None
FRAMEWORK_SUPPLIED = {"slice_point", "slice_points"}


def check(project, tier):
    res = Result()
    for m, q, node in functions(project):
        a = node.args
        pos = a.posonlyargs + a.args
        opt = [p.arg for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults) if isinstance(d, ast.Constant) and d.value is None]
        opt += [p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if isinstance(d, ast.Constant) and d.value is None]
        seen = set()
        group = co_supplied(node)
        cls = m.classes.get(q.rsplit(".", 1)[0]) if "." in q else None

        def callees(call, cls=cls, m=m):
            f = call.func
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "self" and cls is not None:
                r = project.find_method(cls, f.attr)
                return [(r.node, 0 if any(ast.unparse(d) == "staticmethod" for d in r.node.decorator_list) else 1)] if r else []
            if isinstance(f, ast.Name):
                r = project.resolve(m, f.id)
                if r is not None and r[0] == "func":
                    return [(r[1].node, 0)]
                if r is not None and r[0] == "class":
                    i = project.find_method(r[1], "__init__")
                    return [(i.node, 1)] if i else []
            return []

        for p in [None] + [o for o in opt if o not in FRAMEWORK_SUPPLIED and o not in group]:
            def report(n, s, how):
                name = ast.unparse(n)
                if (name, how) in seen or name in group:
                    return
                seen.add((name, how))
                cond = "; ".join(f"{k} is {v[1]!r}" for k, v in list(s.facts.items()) if v[0] in ("eq", "truth") and k != name)[:160]
                what = f"optional argument {name!r} left at None" if name == p else f"{name!r}, which is None on this path,"
                res.add("none-used", f"{m.relpath}:{q}", name, f"{what} is {how}" + (f" (path: {cond})" if cond else ""), n.lineno)

            def count():
                res.count("uses_checked")

            f = Null(node, report, count, callees)
            facts = {}
            if p is not None:
                facts[p] = ("eq", None)
                f.deps[p] = {p}
                res.count("optional_arguments")
            f.run(None, facts)
        res.count("functions")
    res.guard("optional_arguments", 300)
    return res
