"""Values computed for one iteration of a loop are not used for something else."""
import ast

from ..core import Result
from .defassign import functions, local_names
from .inert import walk_own


def has_break(loop):
    def v(sts):
        for st in sts:
            if isinstance(st, (ast.Break, ast.Return, ast.Raise)):
                return True
            if isinstance(st, (ast.For, ast.While)):
                if v(st.orelse) or any(isinstance(x, ast.Return) for x in ast.walk(st)):
                    return True
                continue
            for b in ("body", "orelse", "finalbody"):
                if v(getattr(st, b, []) or []):
                    return True
            for h in getattr(st, "handlers", []):
                if v(h.body):
                    return True
        return False
    return v(loop.body)


def plain(b):
    """takes a value from the item, or does nothing"""
    if isinstance(b, ast.Pass) or isinstance(b, ast.Expr) and isinstance(b.value, (ast.Constant, ast.Name)):
        return True
    t = b.targets[0] if isinstance(b, ast.Assign) else b.target if isinstance(b, ast.AnnAssign) else None
    return isinstance(t, ast.Name) and isinstance(b.value, (ast.Attribute, ast.Name, ast.Subscript, ast.Constant))


def first_given(f):
    """names that have a value before the first loop that assigns them"""
    out = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs}
    line = {}
    for n in ast.walk(f):
        if isinstance(n, (ast.For, ast.While)):
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    line[x.id] = min(line.get(x.id, n.lineno), n.lineno)
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.lineno < line.get(n.id, 0):
            out.add(n.id)
    return out


class Walk:
    """forward: which (loop, name) definitions may reach a read after the loop has ended"""

    def __init__(self, fnode, report):
        self.report = report
        self.f = fnode
        self.stack = []
        self.first = first_given(fnode)

    def run(self):
        self.block(self.f.body, {})

    def reads(self, node, env, added=False):
        if node is None:
            return
        bound = set()
        for x in ast.walk(node):
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                for g in x.generators:
                    bound |= {y.id for y in ast.walk(g.target) if isinstance(y, ast.Name)}
            elif isinstance(x, ast.Lambda):
                bound |= {a.arg for a in x.args.args}
        each = set()    # what a comprehension evaluates for every one of its own items
        for x in ast.walk(node):
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                parts = [x.key, x.value] if isinstance(x, ast.DictComp) else [x.elt]
                for i, g in enumerate(x.generators):
                    parts += g.ifs + ([g.iter] if i else [])
                each |= {id(y) for z in parts for y in ast.walk(z)}
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in env and x.id not in bound:
                for d in env[x.id]:
                    if isinstance(d, tuple):
                        if set(self.stack) - d[2] or id(x) in each:   # inside a loop that does not also enclose the defining one
                            self.report(x, d)
                        elif d[3] and x.id not in self.first and (added or not (isinstance(node, ast.Name) or isinstance(node, ast.Tuple) and x in node.elts)):
                            self.report(x, d)
                    elif d is not None:
                        self.report(x, d)

    def fresh(self, sts):
        """names every way through the statements gives a value to that is not made from their own"""
        out = set()
        for b in sts:
            if isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name):
                n = b.targets[0].id
                if n not in {x.id for x in ast.walk(b.value) if isinstance(x, ast.Name)}:
                    out.add(n)
            elif isinstance(b, ast.If) and b.orelse:
                out |= self.fresh(b.body) & self.fresh(b.orelse)
        return out

    def temporaries(self, loop):
        """names given a fresh value in every iteration, whatever the branch, and not before the loop"""
        out = self.fresh(loop.body)
        aug = {x.target.id for x in ast.walk(loop) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
        # only names whose value differs between iterations
        var = self.stores(loop.target)
        dep = set(var)
        for _ in range(3):
            for b in loop.body:
                for a in ast.walk(b):
                    if isinstance(a, ast.Assign) and {x.id for x in ast.walk(a.value) if isinstance(x, ast.Name)} & dep:
                        dep |= self.stores(a)
        return {n for n in out if n in dep} - aug

    def stores(self, node):
        return {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}

    def merge(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = {}
        for k in set(a) | set(b):
            out[k] = a.get(k, frozenset({None})) | b.get(k, frozenset({None}))
        return out

    def block(self, sts, env):
        for st in sts:
            if env is None:
                return None
            env = self.stmt(st, env)
        return env

    def kill(self, env, names):
        if not names:
            return env
        e = dict(env)
        for n in names:
            e.pop(n, None)
        return e

    def stmt(self, st, env):
        if isinstance(st, ast.If):
            self.reads(st.test, env)
            return self.merge(self.block(st.body, env), self.block(st.orelse, env))
        if isinstance(st, (ast.For, ast.AsyncFor)):
            self.reads(st.iter, env)
            e = self.kill(env, self.stores(st.target))
            self.stack.append(id(st))
            b = self.block(st.body, e)
            if b is not None:
                b = self.block(st.body, self.merge(self.kill(b, self.stores(st.target)), e)) or b
            self.stack.pop()
            out = self.merge(b, env) or env
            if st.orelse:
                out = self.block(st.orelse, out)
                if out is None:
                    out = env
            out = dict(out)
            if not has_break(st) and not (isinstance(st.iter, ast.Call) and ast.unparse(st.iter.func) in ("range", "np.arange")):
                idx = set()
                if isinstance(st.iter, ast.Call) and ast.unparse(st.iter.func) == "enumerate" and isinstance(st.target, ast.Tuple):
                    idx = self.stores(st.target.elts[0])   # the running index counts the items
                    if st.iter.args and isinstance(st.iter.args[0], ast.Call) and ast.unparse(st.iter.args[0].func) in ("range", "np.arange"):
                        idx = self.stores(st.target)
                for n in self.stores(st.target) - idx:
                    out[n] = frozenset({st})
            if not has_break(st):
                for n in self.temporaries(st) - self.stores(st.target):
                    # a loop that does nothing else takes the last item's values on purpose
                    out[n] = frozenset({("tmp", st, frozenset(self.stack), not all(plain(b) for b in st.body))})
            return out
        if isinstance(st, ast.While):
            self.reads(st.test, env)
            b = self.block(st.body, env)
            return self.merge(b, env)
        if isinstance(st, (ast.With, ast.AsyncWith)):
            for it in st.items:
                self.reads(it.context_expr, env)
                if it.optional_vars is not None:
                    env = self.kill(env, self.stores(it.optional_vars))
            return self.block(st.body, env)
        if isinstance(st, ast.Try):
            b = self.block(st.body, env)
            o = self.block(st.orelse, b) if b is not None else None
            h = None
            for hd in st.handlers:
                h = self.merge(h, self.block(hd.body, self.merge(env, b)))
            out = self.merge(o, h)
            if st.finalbody:
                out = self.block(st.finalbody, out if out is not None else env) if out is not None else (self.block(st.finalbody, env), None)[1]
            return out
        if isinstance(st, ast.Match):
            self.reads(st.subject, env)
            out = env
            for c in st.cases:
                out = self.merge(out, self.block(c.body, env))
            return out
        if isinstance(st, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(st):
                self.reads(c, env)
            return None
        if isinstance(st, (ast.Break, ast.Continue)):
            return None
        if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            return self.kill(env, {st.name})
        for c in ast.iter_child_nodes(st):
            if isinstance(c, ast.expr):
                self.reads(c, env, isinstance(st, ast.AugAssign))   # adding the last item's value to a total is no plain hand-over
        if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
            self.reads(ast.Name(st.target.id, ast.Load()), env)
        return self.kill(env, self.stores(st))


def check_targets(project, tier):
    res = Result()
    for m, q, node in functions(project):
        seen = set()

        def report(x, loop):
            tmp = isinstance(loop, tuple)
            if tmp:
                loop = loop[1]
            k = (x.id, ast.unparse(loop.iter))
            if k in seen:
                return
            seen.add(k)
            if tmp:
                res.add("value-of-another-loop", f"{m.relpath}:{q}", f"{x.id} of for {ast.unparse(loop.target)} in {ast.unparse(loop.iter)}"[:90],
                        f"{x.id!r} is computed anew for each item of one loop, but read in a later loop: the last item's value is used for all", getattr(x, "lineno", loop.lineno))
                return
            res.add("loop-variable-after-loop", f"{m.relpath}:{q}", f"{x.id} of for {ast.unparse(loop.target)} in {ast.unparse(loop.iter)}"[:90],
                    f"{x.id!r} is read after its loop has ended: only the last item is used", getattr(x, "lineno", loop.lineno))
        Walk(node, report).run()
        res.count("functions")
        res.count("loops", sum(isinstance(n, ast.For) for n in walk_own(node)))
    return res


def check_accumulators(project, tier):
    """a counter or list that is emptied in every iteration but only read after the loop holds the last iteration only"""
    res = Result()
    for m, q, node in functions(project):
        nodes = list(walk_own(node))
        for lp in nodes:
            if not isinstance(lp, (ast.For, ast.While)):
                continue
            inside = {id(x) for x in ast.walk(lp)}
            for b in lp.body:
                if not (isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and empty(b.value)):
                    continue
                n = b.targets[0].id
                acc, plain, after, other = 0, 0, 0, 0
                own_reads = set()
                for x in ast.walk(lp):
                    if isinstance(x, ast.AugAssign):
                        t = x.target
                        while isinstance(t, ast.Subscript):
                            t = t.value
                        if isinstance(t, ast.Name) and t.id == n:
                            acc += 1
                            own_reads.add(id(t))
                    elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == n:
                        acc += 1
                        own_reads.add(id(x.value))
                    elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == n \
                            and x.func.attr in ("append", "extend", "add", "update"):
                        acc += 1
                        own_reads.add(id(x.func.value))
                for x in nodes:
                    if isinstance(x, ast.Name) and x.id == n:
                        if isinstance(x.ctx, ast.Load):
                            if id(x) in inside:
                                plain += id(x) not in own_reads
                            else:
                                after += x.lineno > lp.end_lineno
                        elif x is not b.targets[0] and id(x) not in own_reads:
                            other += 1
                res.count("loop_initialised_counters")
                if acc and not plain and after and not other:
                    res.add("accumulator-reset", f"{m.relpath}:{q}", n, f"{n!r} is emptied in every iteration of the loop but only read after it: earlier iterations are lost", b.lineno)
    return res


def empty(v):
    if isinstance(v, ast.Constant):
        return v.value in (0, 0.0, "")
    if isinstance(v, (ast.List, ast.Set, ast.Tuple)):
        return not v.elts
    if isinstance(v, ast.Dict):
        return all(isinstance(x, ast.Constant) and x.value in (0, 0.0) for x in v.values)
    if isinstance(v, ast.Call):
        return ast.unparse(v.func) in ("np.zeros", "np.zeros_like", "np.ones", "np.full", "np.empty", "np.ones_like", "np.full_like", "dict", "list", "set") 
    return False


def check_running_counts(project, tier):
    """a count taken by an inner loop and compared once per item of the outer loop starts again for every item of the outer loop"""
    res = Result()
    for m, q, node in functions(project):
        nodes = list(walk_own(node))
        for outer in nodes:
            if not isinstance(outer, ast.For):
                continue
            inners = [x for b in outer.body for x in ast.walk(b) if isinstance(x, (ast.For, ast.While))]
            taken = {}
            for i in inners:
                for x in ast.walk(i):
                    if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and isinstance(x.op, ast.Add) and isinstance(x.value, ast.Constant) and type(x.value.value) is int:
                        taken.setdefault(x.target.id, []).append(i)
            for n, loops in taken.items():
                within = {id(x) for i in loops for x in ast.walk(i)}
                whole = {id(x) for x in ast.walk(outer)}
                stores = [x for x in nodes if isinstance(x, ast.Assign) and n in {y.id for t in x.targets for y in ast.walk(t) if isinstance(y, ast.Name)}]
                reads = [x for x in nodes if isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Load)]
                res.count("inner_loop_counts")
                if not stores or any(id(x) in whole for x in stores) or any(id(x) not in whole or id(x) in within for x in reads):
                    continue
                tests = [x for x in ast.walk(outer) if isinstance(x, (ast.If, ast.While)) and id(x) not in within]
                here = {}
                for t in tests:
                    for c in ast.walk(t.test):
                        if isinstance(c, ast.Compare):
                            for y in ast.walk(c):
                                here[id(y)] = t
                first = min(i.lineno for i in loops)
                if not reads or any(id(x) not in here or here[id(x)].lineno < first for x in reads):
                    continue
                if any(isinstance(y, (ast.Break, ast.Return, ast.Raise)) for x in reads for y in ast.walk(here[id(x)])):
                    continue    # a budget for the whole loop
                res.add("count-not-restarted", f"{m.relpath}:{q}", n,
                        f"{n!r} counts what the inner loop finds and is compared for every item of the outer loop, but it is only set to its start before the outer loop: counts of earlier items are included", reads[0].lineno)
    return res
