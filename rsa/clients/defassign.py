"""Every local variable is assigned before it is read, on every path."""
import ast
import symtable

from ..core import Result, where
from ..flow import S, Flow, start_facts
from ..project import FuncInfo


class DA(Flow):
    def __init__(self, fnode, local, report):
        super().__init__(fnode)
        self.local, self.report = local, report
        self.reads = 0

    def join(self, a, b):
        return a & b

    def expr(self, node, s):
        if isinstance(node, ast.BoolOp):
            out, live = [], [s]
            isand = isinstance(node.op, ast.And)
            for v in node.values:
                nxt = []
                for x in live:
                    for t, b in self.cond(v, x):
                        (nxt if b == isand else out).append(t)
                live = nxt
            return self.squash(out + live)
        if isinstance(node, ast.IfExp):
            out = []
            for t, b in self.cond(node.test, s):
                out += self.expr(node.body if b else node.orelse, t)
            return self.squash(out)
        return [S(s.facts, self.scan(node, s.data, s))]

    def scan(self, node, data, s):
        if isinstance(node, ast.Name):
            if isinstance(node.ctx, ast.Load) and node.id in self.local:
                self.reads += 1
                if node.id not in data:
                    self.report(node, s)
                    data = data | {node.id}
            return data
        if isinstance(node, ast.NamedExpr):
            data = self.scan(node.value, data, s)
            return data | {node.target.id} if node.target.id in self.local else data
        if isinstance(node, (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef)):
            return data
        if isinstance(node, ast.IfExp) or isinstance(node, ast.BoolOp):
            res = [x.data for x in self.expr(node, S(s.facts, data))]
            d = res[0]
            for x in res[1:]:
                d = d & x
            return d
        if isinstance(node, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            inner = data
            for g in node.generators:
                inner = self.scan(g.iter, inner, s)
                tg = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                inner = inner | tg
                st = S(self.forget(s, tg).facts, inner)
                ok = [st]
                for c in g.ifs:
                    ok = [t for x in ok for t, b in self.cond(c, x) if b] or ok
                s = ok[0] if len(ok) == 1 else S({}, ok[0].data)
                inner = s.data
            for e in ([node.key, node.value] if isinstance(node, ast.DictComp) else [node.elt]):
                for x in self.expr(e, S(s.facts, inner)):
                    pass
            return data
        for c in ast.iter_child_nodes(node):
            data = self.scan(c, data, s)
        return data

    def bind(self, target, s, value=None):
        d = s.data
        for n in ast.walk(target):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                d = self.scan(n, d, s)
        add = {n.id for n in ast.walk(target) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in self.local}
        return [S(s.facts, d | add)]

    def bind_name(self, name, s):
        return S(s.facts, s.data | {name}) if name in self.local else s

    def delete(self, target, states):
        if isinstance(target, ast.Name) and target.id in self.local:
            return [S(s.facts, s.data - {target.id}) for s in states]
        return self.exprs([c for c in ast.iter_child_nodes(target) if isinstance(c, ast.expr)], states)


def local_names(fnode):
    """names bound in the function's own scope, minus parameters and global/nonlocal declarations"""
    out, outer = set(), set()

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            outer.update(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    out.add(c.target.id)
            return
        for c in ast.iter_child_nodes(n):
            visit(c)

    for b in fnode.body:
        visit(b)
    return out - outer


def functions(project):
    """every function, nested ones included: (FuncInfo-like where, node)"""
    for m in project.modules.values():
        stack = [(m.tree, "")]
        while stack:
            node, q = stack.pop()
            for c in ast.iter_child_nodes(node):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    nq = f"{q}.{c.name}" if q else c.name
                    yield m, nq, c
                    stack.append((c, nq))
                elif isinstance(c, ast.ClassDef):
                    stack.append((c, f"{q}.{c.name}" if q else c.name))
                else:
                    stack.append((c, q))


def check(project, tier):
    res = Result()
    for m, q, node in functions(project):
        a = node.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        if a.vararg:
            params.add(a.vararg.arg)
        if a.kwarg:
            params.add(a.kwarg.arg)
        local = local_names(node) | params
        seen = set()

        def report(n, s):
            if n.id in seen:
                return
            seen.add(n.id)
            cond = "; ".join(f"{k} {v[0]} {v[1]!r}" if v[0] != "ne" else f"{k} not {sorted(map(str, (x[1] for x in v[1])))}" for k, v in list(s.facts.items())[:4])
            res.add("maybe-unassigned", f"{m.relpath}:{q}", n.id,
                    f"local variable {n.id!r} is read on a path where nothing assigned it"
                    + (f" (path: {cond})" if cond else ""), n.lineno)

        f = DA(node, local, report)
        f.run(frozenset(params), start_facts(project, m, q, f))
        res.count("functions")
        res.count("local_reads", f.reads)
        res.count("statements", f.steps)
    res.guard("functions", 1200)
    return res
