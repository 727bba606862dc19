"""An option that names a column is used wherever that column is meant: its default name is not written out again."""
import ast

from ..core import Result, where

SUFFIX = ("col", "col_name", "column", "column_name", "colname")


def options(g):
    """{default name: option} for the column-name options of a function"""
    out = {}
    for k, d in g.defaults().items():
        if isinstance(d, ast.Constant) and isinstance(d.value, str) and d.value and k.lower().endswith(SUFFIX):
            out.setdefault(d.value, k)
    return out


def root(node):
    while isinstance(node, (ast.Subscript, ast.Attribute, ast.Call)):
        node = node.func if isinstance(node, ast.Call) else node.value
    return node.id if isinstance(node, ast.Name) else None


def literal_reads(f):
    """(node, name, container root) for every place where a column is read under a literal name"""
    for n in ast.walk(f.node):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
            yield n, n.slice, root(n.value), n.value
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.List):
            for e in n.slice.elts:
                if isinstance(e, ast.Constant):
                    yield n, e, root(n.value), n.value
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            args = [k.value for k in n.keywords if k.arg in ("order", "by", "on", "subset")]
            if n.func.attr in ("groupby", "sort_values", "drop_duplicates", "set_index"):
                args += n.args[:1]
            for a in args:
                for e in (a.elts if isinstance(a, (ast.List, ast.Tuple)) else [a]):
                    if isinstance(e, ast.Constant) and isinstance(e.value, str):
                        base = n.func.value
                        if isinstance(base, ast.Name) and base.id in ("np", "numpy") and n.args:
                            base = n.args[0]
                        yield n, e, root(base), base


def check(project, tier):
    res = Result()
    for scope in list(project.all_classes()) + [f for f in project.all_functions() if f.cls is None]:
        fns, opts, ignore = [], {}, set()
        if hasattr(scope, "methods"):
            fam = project.mro(scope)
            fns = list(scope.methods.values())
            trees = [c.node for c in fam]
            used = {n.attr for c in fam for n in ast.walk(c.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)}
            for c in fam:
                g = c.methods.get("__init__")
                if g is None:
                    continue
                for d, o in options(g).items():
                    # the option is kept in an attribute that is read, as it is
                    kept = {t.attr for n in ast.walk(g.node) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == o
                            for t in n.targets if isinstance(t, ast.Attribute)}
                    if kept & used:
                        opts.setdefault(d, o)
        else:
            fns, trees = [scope], [scope.node]
            opts = options(scope)
        if not opts:
            continue
        res.count("column_options", len(opts))
        reads = [(f,) + r for f in fns for r in literal_reads(f)]
        res.count("literal_column_reads", len(reads))
        hit = [r for r in reads if r[2].value in opts]
        if not hit:
            continue
        # names this class or function puts there itself are its own, whatever the options are called
        readnodes = {id(r[2]) for r in reads}
        defaults = {id(d) for t in trees for n in ast.walk(t) if isinstance(n, ast.arguments) for d in n.defaults + n.kw_defaults if d is not None}
        made = {n.value for t in trees for n in ast.walk(t) if isinstance(n, ast.Constant) and isinstance(n.value, str) and id(n) not in readnodes and id(n) not in defaults}
        for f, n, name, r, base in hit:
            me = f.params()[0] if f.cls is not None and f.params() and not f.is_static else None
            if name.value in made or r is None or r == me and direct_attr(base, me) or "slice_point" in (r or ""):
                continue
            o = opts[name.value]
            res.add("default-column-name-written-out", where(f), f"{ast.unparse(base)}[{name.value!r}]",
                    f"reads column {name.value!r} of {ast.unparse(base)} by its default name, although option {o!r} names that column: with another {o} the column is not there", n.lineno)
    res.guard("column_options", 100)
    return res


def direct_attr(node, me):
    """self.attr or self.attr[...]"""
    while isinstance(node, ast.Subscript):
        node = node.value
    return isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) and node.value.id == me
