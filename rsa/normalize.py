"""Meaning-preserving canonical forms, applied to every syntax tree before any check looks at it, so that the checks judge
what the code does and not how it is spelt."""
import ast

FLIP = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Is: ast.Is, ast.IsNot: ast.IsNot, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
NEG = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


class Canon(ast.NodeTransformer):
    depth = 0

    def visit_FunctionDef(self, f):
        self.depth += 1
        self.generic_visit(f)
        self.depth -= 1
        if not self.depth:
            plain_loops(f)
        return f

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, c):
        d, self.depth = self.depth, 0
        self.generic_visit(c)
        self.depth = d
        return c

    def visit_AnnAssign(self, a):
        self.generic_visit(a)
        if self.depth and a.value is not None:
            return ast.copy_location(ast.Assign([a.target], a.value), a)
        return a

    def visit_Compare(self, c):
        self.generic_visit(c)
        if len(c.ops) == 1 and isinstance(c.left, ast.Constant) and not isinstance(c.comparators[0], ast.Constant) and type(c.ops[0]) in FLIP:
            return ast.copy_location(ast.Compare(c.comparators[0], [FLIP[type(c.ops[0])]()], [c.left]), c)
        return c

    def visit_UnaryOp(self, u):
        self.generic_visit(u)
        if isinstance(u.op, ast.Not):
            x = u.operand
            if isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in NEG:
                return ast.copy_location(ast.Compare(x.left, [NEG[type(x.ops[0])]()], x.comparators), u)
        return u

    def visit_Call(self, c):
        self.generic_visit(c)
        if any(k.arg is None and isinstance(k.value, ast.Dict) for k in c.keywords):
            out = []
            for k in c.keywords:
                d = k.value
                if k.arg is None and isinstance(d, ast.Dict) and all(isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.isidentifier() for x in d.keys):
                    out += [ast.copy_location(ast.keyword(x.value, v), k) for x, v in zip(d.keys, d.values)]
                else:
                    out.append(k)
            c.keywords = out
        return c


    def visit_If(self, i):
        self.generic_visit(i)
        if not i.orelse and len(i.body) == 1 and isinstance(i.body[0], ast.If) and not i.body[0].orelse:
            b = i.body[0]
            vals = []
            for t in (i.test, b.test):
                vals += t.values if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) else [t]
            i.test = ast.copy_location(ast.BoolOp(ast.And(), vals), i.test)
            i.body = b.body
        return i


def plain_loops(f):
    """for i, x in enumerate(xs) with i never read -> for x in xs"""
    read = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Store)}
    for n in ast.walk(f):
        if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and isinstance(n.target.elts[0], ast.Name) \
                and n.target.elts[0].id not in read and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "enumerate" and n.iter.args:
            n.target = n.target.elts[1]
            n.iter = n.iter.args[0]


def canonical(tree):
    return Canon().visit(tree)


def scope_locals(fn):
    a = fn.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    for v in (a.vararg, a.kwarg):
        if v:
            out.add(v.arg)
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    st = list(body)
    while st:
        n = st.pop()
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.add(n.name)
            continue
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(x.asname or x.name).split(".")[0] for x in n.names}
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.Lambda):
            continue
        st.extend(ast.iter_child_nodes(n))
    return out


class Propagate(ast.NodeTransformer):
    """names of module-level string constants -> the constant"""

    def __init__(self, consts):
        self.c = consts
        self.hidden = []

    def func(self, f):
        self.hidden.append(scope_locals(f))
        self.generic_visit(f)
        self.hidden.pop()
        return f

    visit_FunctionDef = visit_AsyncFunctionDef = visit_Lambda = func

    def visit_Name(self, n):
        if self.hidden and isinstance(n.ctx, ast.Load) and n.id in self.c and not any(n.id in h for h in self.hidden):
            return ast.copy_location(ast.Constant(self.c[n.id]), n)
        return n


def propagate(project):
    own = {}
    for m in project.modules.values():
        g = {x for n in ast.walk(m.tree) if isinstance(n, ast.Global) for x in n.names}
        own[m.name] = {k: v[0].value for k, v in m.assigns.items()
                       if len(v) == 1 and isinstance(v[0], ast.Constant) and isinstance(v[0].value, str) and k not in g and not k.startswith("__")}
    for m in project.modules.values():
        c = dict(own[m.name])
        for name, imp in m.imports.items():
            if imp[0] == "from":
                r = project.resolve(m, name)
                if r and r[0] == "assign" and r[2] in own.get(r[1].name, {}):
                    c[name] = own[r[1].name][r[2]]
        if c:
            Propagate(c).visit(m.tree)
