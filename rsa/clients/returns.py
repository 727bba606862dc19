"""Operations return what their callers count on: a value on every path, of one shape, under one signature."""
import ast

from ..core import Result
from ..flow import Flow, S, start_facts
from .defassign import functions


class Paths(Flow):
    """data: True when the last thing done was handing something to an object the caller supplied"""
    AT_LEAST_ONCE = True

    def join(self, a, b):
        return a and b

    def __init__(self, fnode):
        super().__init__(fnode)
        a = fnode.args
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} - {"self"}

    def stmt(self, st, states):
        o = super().stmt(st, states)
        if not isinstance(st, (ast.If, ast.For, ast.While, ast.With, ast.Try, ast.Match)):
            gave = isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) \
                and isinstance(st.value.func.value, ast.Name) and st.value.func.value.id in self.params and bool(st.value.args)
            o["next"] = [S(s.facts, gave) for s in o["next"]]
        return o


def own(fnode):
    """nodes of the function's own scope"""
    stack = list(fnode.body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))


_SUM = {}


def summary(fnode, facts=None):
    """-> dict(gen, values=[return exprs], none=[bare/None return nodes], falls=bool, raises_only=bool)"""
    r = _SUM.get(id(fnode))
    if r is not None:
        return r[0]
    gen, vals, none = False, [], []
    for n in own(fnode):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen = True
        elif isinstance(n, ast.Return):
            if n.value is None or (isinstance(n.value, ast.Constant) and n.value.value is None):
                none.append(n)
            else:
                vals.append(n)
    falls = False
    p = Paths(fnode)
    if facts is not None:
        project, m, q = facts
        p.run(False, start_facts(project, m, q, p))
    else:
        p.run(False)
    falls = any(k == "fall" and not st.data for k, st, _ in p.exits)
    s = dict(gen=gen, values=vals, none=none, falls=falls, 
             nonevar=[n for k, st, n in p.exits if k == "return" and isinstance(n, ast.Return) and isinstance(n.value, ast.Name)
                      and st.facts.get(n.value.id) == ("eq", None)])
    _SUM[id(fnode)] = (s, fnode)
    return s


def check_paths(project, tier):
    res = Result()
    for m, q, node in functions(project):
        s = summary(node, (project, m, q))
        res.count("functions")
        if s["gen"]:
            continue
        res.count("return_statements", len(s["values"]) + len(s["none"]))
        if s["values"] and s["falls"]:
            res.add("path-without-result", f"{m.relpath}:{q}", q.split(".")[-1],
                    "some paths return a value, but one runs off the end and returns nothing", node.lineno)
    return res


def arity(e):
    if isinstance(e, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in e.elts):
        return len(e.elts)
    return None


def shapes(project, fi, e, seen=()):
    """what an expression may be: {number of values of a tuple, "single" for one value that is no tuple or list, None when not known}"""
    from .linking import call_target
    if isinstance(e, ast.Tuple):
        return {arity(e)}
    if isinstance(e, ast.IfExp):
        return shapes(project, fi, e.body, seen) | shapes(project, fi, e.orelse, seen)
    if isinstance(e, (ast.Compare, ast.Dict, ast.DictComp, ast.JoinedStr, ast.SetComp, ast.Set)):
        return {"single"}
    if isinstance(e, ast.Constant):
        return {"single"} if isinstance(e.value, (bool, int, float, str)) else {None}
    if isinstance(e, ast.UnaryOp):
        return {"single"} if isinstance(e.op, ast.Not) else shapes(project, fi, e.operand, seen) & {"single"} or {None}
    if isinstance(e, ast.BinOp):
        # arithmetic on anything but two sequences gives numbers, arrays, tables or texts
        return {None} if isinstance(e.op, (ast.Add, ast.Mult)) and not any(number(x) for x in (e.left, e.right)) else {"single"}
    if isinstance(e, ast.Name) and (fi, e.id) not in seen:
        vals, whole = [], e.id not in fi.params()
        for n in own(fi.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id == e.id:
                        vals.append(n.value)
                    elif any(isinstance(x, ast.Name) and x.id == e.id and isinstance(x.ctx, ast.Store) for x in ast.walk(t)):
                        whole = False
            elif isinstance(n, (ast.Name, ast.ExceptHandler)) and (getattr(n, "id", None) == e.id and isinstance(n.ctx, ast.Store) or getattr(n, "name", None) == e.id):
                vals.append(None)
        if not whole or not vals or len([v for v in vals if v is None]) != len([v for v in vals if v is not None]):
            return {None}
        out = set()
        for v in vals:
            if v is not None and not (isinstance(v, ast.Constant) and v.value is None):
                out |= shapes(project, fi, v, seen + ((fi, e.id),))
        return out or {None}
    if isinstance(e, ast.Call):
        name = ast.unparse(e.func)
        if name.startswith(("np.", "numpy.")):
            return {"single"} if name.split(".", 1)[1] in ARRAYS else {None}
        if name in ("float", "int", "str", "len", "dict", "bool", "set", "round"):
            return {"single"}
        t = call_target(project, fi, e)
        if t is None or t[0].name == "__init__" or t[0] in seen or overridden(project, t[0]) or getattr(t[0].node, "decorator_list", None):
            return {None}
        g = t[0]
        s = summary(g.node)
        if s["gen"] or not s["values"] or len(seen) > 6:
            return {None}
        out = set()
        for r in s["values"]:
            out |= shapes(project, g, r.value, seen + (g,))
        return out
    return {None}


def by_option(fi, rets):
    """each of these returns is taken for a value of an option of the function"""
    params = set(fi.params())
    for n in own(fi.node):
        if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id in params for x in ast.walk(n.value)) \
                and isinstance(n.value, (ast.Name, ast.IfExp, ast.Compare, ast.UnaryOp)):
            params |= {t.id for t in n.targets if isinstance(t, ast.Name)}
    inside = set()
    for n in own(fi.node):
        if isinstance(n, ast.If):
            t = n.test
            while isinstance(t, ast.UnaryOp):
                t = t.operand
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant):
                t = t.left
            if isinstance(t, ast.Name) and t.id in params or isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                inside |= {id(x) for b in n.body + n.orelse for x in ast.walk(b)}
    return all(id(r) in inside for r in rets)


def number(e):
    return isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool) \
        or isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Sub, ast.Div, ast.Pow))


ARRAYS = set("zeros ones empty full zeros_like ones_like array asarray arange linspace sum mean median std min max abs sqrt exp log log10 sin cos tan "
             "arcsin arccos arctan2 radians degrees where_ concatenate hstack vstack sort argsort unique_ diff cumsum power size interp digitize in1d isin".split())


def check_shapes(project, tier):
    from .linking import call_target
    res = Result()
    ar = {}
    for fi in project.all_functions():
        s = summary(fi.node)
        if s["gen"] or not s["values"]:
            continue
        a = [x for n in s["values"] for x in shapes(project, fi, n.value, (fi,))]
        tup = {x for x in a if x not in (None, "single")}
        res.count("functions_with_result")
        if len(tup) > 1:
            res.add("result-shape", f"{fi.relpath}:{fi.qualname}", fi.name, f"returns tuples of different lengths {sorted(tup)}", fi.node.lineno)
        elif tup and "single" in a:
            ones = [n for n in s["values"] if "single" in shapes(project, fi, n.value, (fi,))]
            many = [n for n in s["values"] if n not in ones]
            one = ones[0]
            if not by_option(fi, ones) and not by_option(fi, many):
                res.add("result-shape", f"{fi.relpath}:{fi.qualname}", fi.name, f"returns {max(tup)} values on one path and a single value ({ast.unparse(one.value)[:50]}) on another", one.lineno)
        ar[id(fi.node)] = (tup, None in a, bool(s["none"]))
    for fi in project.all_functions():
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and len(n.targets) == 1:
                t = call_target(project, fi, n.value)
                if t is None:
                    continue
                g = t[0]
                if g.name == "__init__":
                    continue
                s = summary(g.node)
                tg = n.targets[0]
                if s["gen"]:
                    continue
                if isinstance(tg, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in tg.elts):
                    res.count("unpacked_results")
                    tup, other, none = ar.get(id(g.node), (set(), False, False))
                    if tup and not other and len(tg.elts) not in tup:
                          res.add("unpack-mismatch", f"{fi.relpath}:{fi.qualname}", f"{ast.unparse(n.value.func)[:60]}",
                                f"{g.qualname} returns {sorted(tup)} values, {len(tg.elts)} are expected here", n.lineno)
                if not s["values"] and not stub(g.node) and not overridden(project, g):
                      res.add("no-result", f"{fi.relpath}:{fi.qualname}", f"{ast.unparse(n.value.func)[:60]}",
                            f"the result of {g.qualname} is used, but it never returns one", n.lineno)
    return res


def stub(fnode):
    body = [b for b in fnode.body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
    return all(isinstance(b, (ast.Pass, ast.Raise)) for b in body) or any("abstract" in ast.unparse(d) for d in fnode.decorator_list)


def overridden(project, g):
    return g.cls is not None and any(g.name in k.methods for k in project.subclasses(g.cls))


# what the pipeline itself calls, and how: (base class, not below, method, positional arguments, keywords, result used, alternatives)
PROTOCOLS = [
    ("BaseMetric", ("BaseMoMetric",), "run", 1, ("slice_point",), True, [(2, ())]),
    ("BaseMoMetric", ("BaseChildMetric",), "run", 3, (), True, [(2, ())]),
    ("BaseChildMetric", (), "run", 4, (), True, []),
    ("BaseMetric", (), "reduce_", 1, (), True, []),
    ("BaseStacker", ("BaseMoStacker",), "_run", 1, (), True, []),
    ("BaseMoStacker", (), "_run", 3, (), True, []),
    ("BaseMap", (), "run", 1, (), True, []),
    ("BasePlotter", (), "__call__", 3, ("fig",), True, []),
    ("BaseSlicer", ("MoObjSlicer",), "setup_slicer", 1, ("maps",), False, []),
]


def binds(fnode, npos, kws):
    a = fnode.args
    pos = [x.arg for x in a.posonlyargs + a.args][1:]
    req = pos[: len(pos) - len(a.defaults)] if len(a.defaults) <= len(pos) else []
    if npos > len(pos) and not a.vararg:
        return f"accepts at most {len(pos)} positional arguments"
    given = set(pos[:npos])
    for k in kws:
        if k in given:
            return f"receives {k!r} twice"
        if k not in pos and k not in [x.arg for x in a.kwonlyargs] and not a.kwarg:
            return f"does not accept {k!r}"
        given.add(k)
    miss = [r for r in req if r not in given] + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in given]
    if miss:
        return f"also requires {miss}"
    return None


def check_protocol(project, tier):
    res = Result()
    byname = {}
    for c in project.all_classes():
        byname.setdefault(c.name, c)
    for base, notbelow, meth, npos, kws, result, alts in PROTOCOLS:
        root = byname.get(base)
        if root is None:
            res.notes.append(f"protocol base {base} not found")
            continue
        for cls in project.all_classes():
            names = {k.name for k in project.mro(cls) if hasattr(k, "name")}
            if base not in names or names & set(notbelow):
                continue
            for n, fi in cls.methods.items():
                if n != meth and not (meth.endswith("_") and n.startswith(meth)):
                    continue
                if stub(fi.node):
                    continue
                if any(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "property") for d in fi.node.decorator_list):
                    continue
                res.count("protocol_methods")
                why = binds(fi.node, npos, kws)
                if why and not any(binds(fi.node, p, k) is None for p, k in alts):
                      res.add("protocol-signature", f"{fi.relpath}:{fi.qualname}", n,
                            f"the pipeline calls it with {npos} positional argument(s)" + (f" and {list(kws)}" if kws else "") + f", but it {why}", fi.node.lineno)
                s = summary(fi.node)
                body = [x for x in fi.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
                if len(body) == 1 and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Call) and isinstance(body[0].value.func, ast.Attribute):
                    g = project.find_method(cls, body[0].value.func.attr)
                    if g is not None and stub(g.node):
                        continue
                if result and not s["values"] and not s["gen"]:
                      res.add("protocol-result", f"{fi.relpath}:{fi.qualname}", n, "the pipeline uses the result, but no path returns one", fi.node.lineno)
                # summary statistics over H and plotters may have nothing to give; they say so with a warning
                bare = list(s["none"]) + s["nonevar"]
                if result and bare and (s["values"]) and meth != "__call__" and why is None:
                      res.add("protocol-result", f"{fi.relpath}:{fi.qualname}", n + " (None)", "the pipeline uses the result, but one path returns None", bare[0].lineno)
    res.guard("protocol_methods", 250)
    return res
