"""P19: rows of the databases -- columns written, asked for and read back are the ones they are called."""
import ast
import re

from ..core import Result
from ..flow import Flow, S, expr_key
from ..project import walk_own
from .storage import functions, word

BUILD = {"filter", "filter_by", "order_by", "join", "distinct", "group_by", "limit", "offset", "outerjoin", "where", "having", "options"}
TAKE = {"all", "first", "one", "one_or_none", "scalar", "count", "delete", "update", "scalars"}


class Table:
    def __init__(self, node):
        self.name, self.node = node.name, node
        self.cols, self.keys, self.rels, self.table = [], set(), set(), None
        self.refs = {}
        for st in node.body:
            t = st.targets[0] if isinstance(st, ast.Assign) and len(st.targets) == 1 else st.target if isinstance(st, ast.AnnAssign) else None
            if not isinstance(t, ast.Name) or st.value is None:
                continue
            v = st.value
            if t.id == "__tablename__" and isinstance(v, ast.Constant):
                self.table = v.value
            elif isinstance(v, ast.Call):
                last = expr_key(v.func).split(".")[-1]
                if last in ("Column", "mapped_column"):
                    self.cols.append(t.id)
                    if any(k.arg == "primary_key" and isinstance(k.value, ast.Constant) and k.value.value for k in v.keywords):
                        self.keys.add(t.id)
                    for a in v.args:
                        if isinstance(a, ast.Call) and expr_key(a.func).split(".")[-1] == "ForeignKey" and a.args and isinstance(a.args[0], ast.Constant):
                            self.refs[t.id] = a.args[0].value
                elif last == "relationship":
                    self.rels.add(t.id)
        self.methods = {st.name for st in node.body if isinstance(st, ast.FunctionDef)}


def row_tables(project):
    """{class name: Table} of the declarative classes, {(relpath, local name): class name}"""
    out, homes = {}, {}
    for m in project.modules.values():
        for c in ast.walk(m.tree):
            if isinstance(c, ast.ClassDef) and c.bases and any(isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id == "__tablename__" for s in c.body):
                t = Table(c)
                out[c.name] = t
                homes[c.name] = m
    back = {}
    for t in out.values():
        for st in t.node.body:
            if isinstance(st, ast.Assign) and isinstance(st.value, ast.Call) and expr_key(st.value.func).split(".")[-1] == "relationship":
                tgt = st.value.args[0].value if st.value.args and isinstance(st.value.args[0], ast.Constant) else None
                for k in st.value.keywords:
                    if k.arg in ("backref", "back_populates"):
                        a = k.value.args[0] if isinstance(k.value, ast.Call) and k.value.args else k.value
                        if isinstance(a, ast.Constant) and tgt in out:
                            out[tgt].rels.add(a.value)
    return out, homes




def stem(w):
    return re.sub(r"_(like|notlike|not_like|in|list|name_like)$", "", w) if w else w


class Rows(Flow):
    """data: sorted tuple of (name, value)

    values: ("query", items, joined, conds, roots), ("row", cls, conds), ("cells", ((cls, col)...)), ("rows", (values...)),
    ("many", value), ("cell", {(cls, col)}, plain), ("tup", (values...)), ("recs", {layouts}), ("dt", names), ("from", roots)
    """

    def __init__(self, fnode, tables, local, report, count):
        super().__init__(fnode)
        self.tables, self.local, self.report, self.count = tables, local, report, count
        a = fnode.args
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} - {"self", "cls"}
        self.asked = {}   # id(query node) -> (node, classes, states)
        self.built = set()
        self.takes = []   # (node, query value, S)

    def join(self, a, b):
        return tuple(x for x in a if x in b)

    # ------------------------------------------------------------------ values
    def roots(self, e, env):
        out = set()
        for n in ast.walk(e):
            if isinstance(n, ast.Name):
                v = env.get(n.id)
                if v is not None and v[0] == "from":
                    out |= v[1]
                elif n.id in self.params:
                    out.add(n.id)
        return frozenset(out)

    def cellset(self, v):
        if v is None:
            return frozenset()
        if v[0] == "cell":
            return v[1]
        if v[0] == "tup":
            return frozenset().union(*[self.cellset(x) for x in v[1]]) if v[1] else frozenset()
        return frozenset()

    def under(self, e, env):
        """cells anywhere inside an expression"""
        out = set()
        for n in ast.walk(e):
            if isinstance(n, (ast.Name, ast.Attribute, ast.Subscript)):
                out |= self.cellset(self.val(n, env))
        return frozenset(out)

    def rowcls(self, e):
        if isinstance(e, ast.Name) and e.id in self.local:
            return self.local[e.id]
        if isinstance(e, ast.Attribute) and e.attr in self.tables and isinstance(e.value, ast.Name):
            return e.attr
        return None

    def colref(self, e):
        """Cls.col, possibly wrapped in a call"""
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("distinct", "desc", "asc", "label"):
                return self.colref(e.func.value)
            if e.args:
                return self.colref(e.args[0])
        if isinstance(e, ast.Attribute):
            c = self.rowcls(e.value)
            if c:
                return (c, e.attr)
        return None

    def val(self, e, env, depth=0):
        if depth > 14 or e is None:
            return None
        v = lambda x: self.val(x, env, depth + 1)  # noqa: E731
        if isinstance(e, ast.Name):
            x = env.get(e.id)
            if x is None and e.id in self.params:
                return ("from", frozenset({e.id}))
            return x
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Attribute):
                if f.attr == "query" and expr_key(f.value).split(".")[-1].lower().endswith("session"):
                    items = []
                    for a in e.args:
                        c = self.rowcls(a)
                        r = self.colref(a)
                        items.append(("row", c) if c else ("cell",) + r if r else None)
                    return ("query", tuple(items), frozenset(), frozenset(), frozenset()) if items and None not in items else None
                b = v(f.value)
                if b and b[0] == "query":
                    if f.attr in BUILD:
                        return self.narrowed(b, e, env)
                    if f.attr in TAKE or f.attr == "execution_options":
                        el = self.element(b)
                        if f.attr in ("all", "scalars"):
                            return ("many", el)
                        if f.attr in ("first", "one", "one_or_none"):
                            return el
                        return None
                if b and b[0] == "many" and f.attr in ("copy",):
                    return b
            if isinstance(f, ast.Name) and f.id in ("list", "tuple", "sorted", "reversed") and len(e.args) == 1:
                x = v(e.args[0])
                if x and x[0] == "query":
                    return ("many", self.element(x))
                return x
            if isinstance(f, ast.Name) and f.id in ("enumerate",) and e.args:
                x = v(e.args[0])
                x = ("many", self.element(x)) if x and x[0] == "query" else x
                return ("many", ("tup", (None, x[1]))) if x and x[0] == "many" else None
            if expr_key(f).split(".")[-1] == "dtype" and len(e.args) == 1:
                return v(e.args[0])
            cells = self.under(e, env)
            if cells:
                plain = isinstance(f, ast.Name) and f.id in ("str", "int", "float") and len(e.args) == 1
                return ("cell", cells, plain and len(cells) == 1)
            r = self.roots(e, env)
            return ("from", r) if r else None
        if isinstance(e, ast.Attribute):
            b = v(e.value)
            if b and b[0] == "row":
                return ("cell", frozenset({(b[1], e.attr)}), True) if e.attr in self.tables[b[1]].cols else None
            if b and b[0] == "cells":
                hit = [x for x in b[1] if x[1] == e.attr]
                return ("cell", frozenset(hit), True) if hit else None
            if b and b[0] == "rows":
                hit = [x for x in b[1] if x and x[0] == "row" and x[1] == e.attr]
                return hit[0] if len(hit) == 1 else None
            return b if b and b[0] == "from" else None
        if isinstance(e, ast.Subscript):
            b = v(e.value)
            if b and b[0] == "query":
                b = ("many", self.element(b))
            if b and b[0] == "many":
                return b if isinstance(e.slice, ast.Slice) else b[1]
            if b and b[0] in ("rows", "tup", "cells") and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int):
                x = b[1]
                if b[0] == "cells":
                    x = tuple(("cell", frozenset({c}), True) for c in x)
                return x[e.slice.value] if -len(x) <= e.slice.value < len(x) else None
            cells = self.under(e.value, env)
            if cells:
                return ("cell", cells, False)
            return b if b and b[0] == "from" else None
        if isinstance(e, ast.Tuple) or isinstance(e, ast.List):
            if any(isinstance(x, ast.Starred) for x in e.elts):
                return None
            if isinstance(e, ast.List) and not e.elts:
                return ("recs", frozenset())
            names = self.dtnames(e)
            if names is not None and isinstance(e, ast.List):
                return ("dt", names)
            vals = tuple(v(x) for x in e.elts)
            if isinstance(e, ast.List) and e.elts and all(x and x[0] == "tup" for x in vals):
                return ("recs", frozenset(vals))
            if isinstance(e, ast.List):
                r = self.roots(e, env)
                if r:
                    return ("from", r)
            return ("tup", vals)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            inner = dict(env)
            for g in e.generators:
                self.unpack(g.target, self.items(self.val(g.iter, inner, depth + 1), g.iter, inner), inner)
            x = self.val(e.elt, inner, depth + 1)
            if x and x[0] == "tup":
                return ("recs", frozenset({x}))
            return ("many", x) if x else None
        if isinstance(e, ast.BinOp):
            if isinstance(e.op, ast.Add):
                a, b = v(e.left), v(e.right)
                if a and b and a[0] == b[0] and a[0] in ("tup", "dt"):
                    return (a[0], a[1] + b[1])
                if a and b and a[0] == b[0] == "recs":
                    return ("recs", a[1] | b[1])
            cells = self.under(e, env)
            if cells:
                return ("cell", cells, False)
        if isinstance(e, ast.IfExp):
            a, b = v(e.body), v(e.orelse)
            if a == b:
                return a
        if isinstance(e, ast.JoinedStr):
            cells = self.under(e, env)
            if cells:
                return ("cell", cells, False)
        r = self.roots(e, env)
        return ("from", r) if r else None

    def dtnames(self, e):
        """names of a dtype written as a list of (name, type, ...)"""
        out = []
        for x in e.elts:
            if isinstance(x, ast.Tuple) and len(x.elts) >= 2 and isinstance(x.elts[0], ast.Constant) and isinstance(x.elts[0].value, str) \
                    and (isinstance(x.elts[1], (ast.Name, ast.Attribute)) and expr_key(x.elts[1]).split(".")[-1] in ("int", "float", "str", "str_", "bool", "object", "int64", "float64", "unicode_")
                         or isinstance(x.elts[1], ast.Constant) and isinstance(x.elts[1].value, str)):
                out.append(x.elts[0].value)
            else:
                return None
        return tuple(out) if out else None

    def element(self, q):
        if len(q[1]) == 1 and q[1][0][0] == "row":
            return ("row", q[1][0][1], q[3])
        if all(x[0] == "cell" for x in q[1]):
            return ("cells", tuple((x[1], x[2]) for x in q[1]))
        return ("rows", tuple(("row", x[1], q[3]) if x[0] == "row" else ("cell", frozenset({x[1:]}), True) for x in q[1]))

    def items(self, v, it, env):
        if v is None:
            r = self.roots(it, env)
            return ("from", r) if r else None
        if v[0] == "query":
            return self.element(v)
        if v[0] == "many":
            return v[1]
        if v[0] == "recs":
            return next(iter(v[1])) if len(v[1]) == 1 else None
        return v if v[0] == "from" else None

    def unpack(self, target, v, env):
        if isinstance(target, ast.Name):
            env.pop(target.id, None)
            if v is not None:
                env[target.id] = v
        elif isinstance(target, (ast.Tuple, ast.List)):
            parts = None
            if v and v[0] in ("rows", "tup"):
                parts = v[1]
            elif v and v[0] == "cells":
                parts = tuple(("cell", frozenset({c}), True) for c in v[1])
            elif v and v[0] == "from":
                parts = (v,) * len(target.elts)
            if parts is not None and len(parts) != len(target.elts):
                parts = None
            for i, t in enumerate(target.elts):
                self.unpack(t, parts[i] if parts else None, env)

    def narrowed(self, b, call, env):
        kind, items, joined, conds, roots = b
        classes = [x[1] for x in items]
        if call.func.attr in ("join", "outerjoin"):
            other = [self.rowcls(a) for a in call.args]
            return (kind, items, joined | {frozenset(classes + [c for c in other if c])}, conds, roots)
        for a in call.args:
            self.sense(a, env)
            for n in ast.walk(a):
                if isinstance(n, ast.Compare) and len(n.ops) == 1:
                    l, r = self.colref(n.left), self.colref(n.comparators[0])
                    if l and r:
                        if isinstance(n.ops[0], ast.Eq) and l[0] != r[0]:
                            joined = joined | {frozenset((l[0], r[0]))}
                            self.same(n, l, r)
                    elif l or r:
                        conds = conds | {(l or r)[1]}
                        roots = roots | self.roots(n.comparators[0] if l else n.left, env)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and self.colref(n.func.value) and n.args:
                    conds = conds | {self.colref(n.func.value)[1]}
                    roots = roots | self.roots(n.args[0], env)
        if call.func.attr == "filter_by":
            for k in call.keywords:
                if k.arg:
                    conds = conds | {k.arg}
                roots = roots | self.roots(k.value, env)
        elif call.func.attr in ("filter", "where") and not call.args:
            pass
        elif call.func.attr in ("filter", "where"):
            for a in call.args:
                roots = roots | self.roots(a, env)
                if not any(self.colref(n) for n in ast.walk(a)):
                    conds = conds | {"?"}
        elif call.func.attr in ("limit", "offset"):
            conds = conds | {"?"}
        return (kind, items, joined, conds, roots)

    def sense(self, a, env):
        """what is to be left out is left out, what is to be found is found"""
        neg = False
        while isinstance(a, ast.UnaryOp) and isinstance(a.op, ast.Invert) or isinstance(a, ast.Call) and expr_key(a.func).split(".")[-1] == "not_" and a.args:
            neg, a = not neg, a.operand if isinstance(a, ast.UnaryOp) else a.args[0]
        if not (isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and self.colref(a.func.value) and a.args):
            return
        op = a.func.attr
        if op in ("notlike", "not_like", "notin_", "not_in", "notilike"):
            neg = not neg
        for p in self.roots(a.args[0], env):
            if re.search(r"_(notlike|not_like|like)$", p):
                self.count("senses_checked")
                if neg != bool(re.search(r"_not_?like$", p)):
                    self.report("criteria-inverted", a, p, f"{p!r} picks the rows it is meant to {'leave out' if not neg else 'find'}")

    def same(self, node, l, r):
        """two tables are matched on the column one refers to the other by"""
        a, b = self.tables[l[0]], self.tables[r[0]]
        refs = {(c, t) for c, t in a.refs.items() if t.split(".")[0] == b.table} | {(t.split(".")[-1], f"{b.table}.{c}") for c, t in b.refs.items() if t.split(".")[0] == a.table}
        if refs and (l[1], f"{b.table}.{r[1]}") not in refs:
            self.report("missing-join", node, f"{l[0]}.{l[1]} == {r[0]}.{r[1]}", "the rows of two tables are matched on columns that do not refer to each other")

    # ------------------------------------------------------------------ effects
    def bind(self, target, s, value=None):
        env = dict(s.data)
        if value is not None:
            if isinstance(target, ast.Subscript):
                return [s]
            self.unpack(target, self.val(value, env), env)
        else:
            it = self.iters.get(id(target))
            self.unpack(target, self.items(self.val(it, env), it, env) if it is not None else None, env)
        return [S(s.facts, tuple(sorted(env.items(), key=repr)))]

    iters = {}

    def do_For(self, st, states):
        self.iters = {**self.iters, id(st.target): st.iter}
        return super().do_For(st, states)

    def do_AugAssign(self, st, states):
        if isinstance(st.target, ast.Name) and isinstance(st.op, ast.Add):
            o = self.new()
            for s in self.exprs([st.value], states):
                env = dict(s.data)
                a, b = env.pop(st.target.id, None), self.val(st.value, env)
                if b and b[0] == "tup" and a and a[0] == "dt":
                    b = None
                if a and b and a[0] == b[0] and a[0] in ("tup", "dt"):
                    env[st.target.id] = (a[0], a[1] + b[1])
                elif a and a[0] == "recs" and b and b[0] == "recs":
                    env[st.target.id] = ("recs", a[1] | b[1])
                o["next"].append(S(self.forget(s, {st.target.id}).facts, tuple(sorted(env.items(), key=repr))))
            return o
        return super().do_AugAssign(st, states)

    def do_Expr(self, st, states):
        for s in states:
            v = self.val(st.value, dict(s.data))
            if v and v[0] == "query" and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and st.value.func.attr in BUILD:
                self.report("condition-dropped", st, expr_key(st.value.func)[:60], "the narrowed query is thrown away: the rows asked for are not narrowed by it")
        return super().do_Expr(st, states)

    def expr(self, node, s):
        env = dict(s.data)
        scopes = [(node, env)]
        while scopes:
            top, en = scopes.pop()
            todo = [top]
            while todo:
                n = todo.pop()
                if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                    inner = dict(en)
                    for g in n.generators:
                        self.seen(g.iter, inner, s)
                        todo2 = self.val(g.iter, inner)
                        if todo2 and todo2[0] == "query":
                            self.taken(g.iter, todo2, s)
                        self.unpack(g.target, self.items(todo2, g.iter, inner), inner)
                        scopes += [(c, inner) for c in g.ifs]
                        scopes.append((g.iter, en))
                    scopes += [(n.elt, inner)] if not isinstance(n, ast.DictComp) else [(n.key, inner), (n.value, inner)]
                    continue
                if isinstance(n, ast.Lambda):
                    continue
                self.seen(n, en, s)
                todo += list(ast.iter_child_nodes(n))
        return [S(s.facts, tuple(sorted(env.items(), key=repr)))]

    def seen(self, n, env, s):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            b = self.val(n.value, env)
            if b and b[0] == "row" and n.attr not in self.tables[b[1]].cols and n.attr not in self.tables[b[1]].rels and n.attr not in self.tables[b[1]].methods \
                    and not n.attr.startswith("_") and n.attr not in ("metadata", "registry"):
                self.report("unknown-column", n, f"{b[1]}.{n.attr}", f"reads {n.attr!r} from a row of {b[1]}, which has no such column")
            elif b and b[0] == "cells" and n.attr not in {c for _k, c in b[1]} and not n.attr.startswith("_") and n.attr not in ("index", "count", "t", "tuple"):
                self.report("unknown-column", n, n.attr, f"reads {n.attr!r} from a row for which it was not asked")
            c = self.rowcls(n.value)
            if c and n.attr not in self.tables[c].cols and n.attr not in self.tables[c].rels and n.attr not in self.tables[c].methods and not n.attr.startswith("_") and n.attr != "metadata":
                self.report("unknown-column", n, f"{c}.{n.attr}", f"{c} has no column {n.attr!r}")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = self.colref(n.left), self.colref(n.comparators[0])
            if bool(l) != bool(r):
                self.match(n, *(l or r), n.comparators[0] if l else n.left)
        elif isinstance(n, ast.Call):
            c = self.rowcls(n.func)
            if c:
                self.construct(n, c, env, s)
            if isinstance(n.func, ast.Attribute):
                op = n.func.attr
                col = self.colref(n.func.value)
                if col and op in ("like", "ilike", "in_", "contains", "startswith", "notin_", "not_in", "notlike", "is_") and n.args:
                    self.match(n, *col, n.args[0])
                b = self.val(n.func.value, env) if op in BUILD | TAKE | {"append", "extend"} else None
                if b and b[0] == "query":
                    if op == "filter_by" and len({x[1] for x in b[1]}) == 1:
                        for k in n.keywords:
                            if k.arg and k.arg not in self.tables[b[1][0][1]].cols + list(self.tables[b[1][0][1]].rels):
                                self.report("unknown-column", n, f"{b[1][0][1]}.{k.arg}", f"{b[1][0][1]} has no column {k.arg!r}")
                            elif k.arg:
                                self.match(n, b[1][0][1], k.arg, k.value)
                    if op in TAKE:
                        self.taken(n, b, s)
                        if op in ("delete", "update") and not b[3]:
                            self.report("every-row", n, expr_key(n)[:60], f"{op}s every row of the table: the query is not narrowed")
                if op == "append" and n.args and isinstance(n.func.value, ast.Name) and env.get(n.func.value.id, ("",))[0] == "recs":
                    x = self.val(n.args[0], env)
                    if x and x[0] == "tup":
                        env[n.func.value.id] = ("recs", env[n.func.value.id][1] | {x})
                    else:
                        env.pop(n.func.value.id)
                elif op == "append" and n.args and isinstance(n.func.value, ast.Name) and env.get(n.func.value.id, ("",))[0] == "dt":
                    nm = self.dtnames(ast.List([n.args[0]], ast.Load()))
                    if nm:
                        env[n.func.value.id] = ("dt", env[n.func.value.id][1] + nm)
                    else:
                        env.pop(n.func.value.id)
                elif op in ("extend", "insert", "pop", "remove") and isinstance(n.func.value, ast.Name) and env.get(n.func.value.id, ("",))[0] in ("recs", "dt"):
                    v = self.val(n.args[0], env) if n.args and op == "extend" else None
                    o = env.pop(n.func.value.id)
                    if v and v[0] == o[0] == "recs":
                        env[n.func.value.id] = ("recs", o[1] | v[1])
                    elif v and v[0] == o[0] == "dt":
                        env[n.func.value.id] = ("dt", o[1] + v[1])
                if op == "delete" and n.args and expr_key(n.func.value).split(".")[-1].lower().endswith("session"):
                    b = self.val(n.args[0], env)
                    if b and b[0] == "row" and not b[2]:
                        self.report("every-row", n, expr_key(n)[:60], "the row to delete comes from a query that is not narrowed: any row of the table is deleted")
                if op in ("array", "fromrecords", "rec", "asarray"):
                    self.records(n, env)
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int):
            b = self.val(n.value, env)
            if b and b[0] in ("cells", "rows") and not -len(b[1]) <= n.slice.value < len(b[1]):
                self.report("unknown-column", n, expr_key(n), f"reads item {n.slice.value} of a row of {len(b[1])}")

    def _assign(self, target, states, value, node):
        if isinstance(node, (ast.For,)):
            for s in states:
                q = self.val(node.iter, dict(s.data))
                if q and q[0] == "query":
                    self.taken(node.iter, q, s)
        return super()._assign(target, states, value, node)

    def match(self, node, c, col, value):
        t = self.tables[c]
        w = stem(word(value))
        self.count("values_matched_to_columns")
        if w and w != col and w in t.cols and not (col.endswith(w) and False):
            self.report("column-mixup", node, f"{c}.{col}={expr_key(value)}"[:80], f"column {col!r} is compared with {expr_key(value)[:40]!r}, which is called after another column of {c}")

    def construct(self, n, c, env, s):
        t = self.tables[c]
        self.built.add(c)
        self.count("rows_built")
        if any(k.arg is None for k in n.keywords):
            return
        given = {k.arg: k.value for k in n.keywords}
        for k, x in given.items():
            if k not in t.cols and k not in t.rels:
                self.report("unknown-column", n, f"{c}.{k}", f"{c} has no column {k!r}")
                continue
            w = word(x)
            if w and w != k and w in t.cols:
                self.report("column-mixup", n, f"{c}.{k}={expr_key(x)}"[:80], f"column {k!r} receives {expr_key(x)[:40]!r}, which is called after another column of {c}")
        for p in sorted(self.params & set(t.cols) - set(given) - t.keys):
            if self._know(s, p, None) is not True:
                self.report("value-dropped", n, f"{c}.{p}", f"the row is made without the {p!r} the caller gives")

    def taken(self, node, q, s):
        self.count("queries_sent")
        rows = sorted({x[1] for x in q[1]})
        if len(rows) > 1:
            linked = {rows[0]}
            for _ in rows:
                for j in q[2]:
                    if j & linked:
                        linked |= j
            for c in rows:
                if c not in linked:
                    self.report("missing-join", node, f"{rows[0]} x {c}", f"rows of {rows[0]} and {c} are asked for together, with nothing that says which belong to each other")
        self.takes.append((node, rows, q, s))

    def records(self, n, env):
        a = n.args
        if not a:
            return
        recs = self.val(a[0], env)
        d = a[1] if len(a) > 1 else next((k.value for k in n.keywords if k.arg == "dtype"), None)
        dt = self.val(d, env) if d is not None else None
        if not recs or not dt or recs[0] != "recs" or dt[0] != "dt":
            return
        for lay in recs[1]:
            self.count("record_layouts_checked")
            if len(lay[1]) != len(dt[1]):
                self.report("record-layout", n, f"{len(dt[1])} names", f"records of {len(lay[1])} values are given the {len(dt[1])} names of the table")
                continue
            cols = {col for v in lay[1] for _c, col in self.cellset(v)}
            classes = {c for v in lay[1] for c, _col in self.cellset(v)}
            allcols = {c for k in classes for c in self.tables[k].cols}
            for name, v in zip(dt[1], lay[1]):
                have = {col for _c, col in self.cellset(v)}
                if have and name in allcols and name not in have:
                    self.report("column-mixup", n, name, f"{name!r} of the returned table is filled from column {sorted(have)[0]!r}")
            plain = [next(iter(v[1]))[1] for v in lay[1] if v and v[0] == "cell" and v[2] and len(v[1]) == 1]
            for x in sorted({p for p in plain if plain.count(p) > 1}):
                names = [nm for nm, v in zip(dt[1], lay[1]) if v and v[0] == "cell" and v[2] and {c for _k, c in v[1]} == {x}]
                self.report("column-mixup", n, x, f"column {x!r} fills {' and '.join(names)} of the returned table alike")


def reprs(m, c, t, report, count):
    """labels of a row's text and the columns that fill them"""
    for f in c.body:
        if not isinstance(f, ast.FunctionDef):
            continue
        for n in ast.walk(f):
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                labels = re.findall(r"(?:(\w+)\s*=\s*'?)?%[-+ #0-9.]*[a-zA-Z]", n.left.value.replace("%%", ""))
                vals = n.right.elts if isinstance(n.right, ast.Tuple) else [n.right]
                if len(labels) != len(vals):
                    report("record-layout", n, f"{c.name}.{f.name}", f"the text has {len(labels)} places for {len(vals)} values")
                    continue
                pairs = list(zip(labels, vals))
            elif isinstance(n, ast.JoinedStr):
                pairs, prev = [], ""
                for x in n.values:
                    if isinstance(x, ast.Constant):
                        prev = x.value
                    else:
                        w = re.search(r"(\w+)\s*=\s*'?$", prev)
                        pairs.append((w.group(1) if w else "", x.value))
                        prev = ""
            else:
                continue
            count("labels_checked", len(pairs))
            for lab, v in pairs:
                if lab in t.cols and isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.attr in t.cols and v.attr != lab:
                    report("column-mixup", v, f"{c.name}.{f.name}:{lab}", f"the text calls column {v.attr!r} {lab!r}")


def renames(project, tables, report, count):
    """alter table T rename column OLD to NEW: what an upgrade gives are columns of the table, what a downgrade takes away likewise"""
    by = {t.table: t for t in tables.values() if t.table}
    sets = {}
    for m, q, fnode in functions(project):
        if not any(isinstance(n, ast.Constant) and isinstance(n.value, str) and "rename column" in n.value.lower() for n in walk_own(fnode)):
            continue
        for got, node in rename_pairs(fnode):
            table, old, new = got
            if table not in by:
                report(m, q, "unknown-table", node, table, f"renames a column of {table!r}, which no row class describes")
                continue
            count("renames_checked")
            up = new in by[table].cols
            down = old in by[table].cols
            if not up and not down:
                report(m, q, "unknown-column", node, f"{table}.{new}", f"table {table!r} has neither a column {new!r} nor {old!r}")
                continue
            sets.setdefault(table, {"up": {}, "down": {}})["up" if up else "down"].setdefault(new if up else old, []).append((old if up else new, m, q, node))
    for table, d in sorted(sets.items()):
        if not d["up"] or not d["down"]:
            continue
        for col in sorted(set(d["up"]) & set(d["down"])):
            a, b = d["up"][col], d["down"][col]
            made = {x[0] for x in a}
            for x in b:
                if x[0] not in made:
                    report(x[1], x[2], "column-mixup", x[3], f"{table}.{col}", f"the upgrade makes {col!r} out of {sorted(made)[0]!r}, the downgrade turns it into {x[0]!r}")
        for col in sorted(set(d["up"]) ^ set(d["down"])):
            x = (d["up"].get(col) or d["down"][col])[0]
            report(x[1], x[2], "value-dropped", x[3], f"{table}.{col}", f"column {col!r} of {table!r} is renamed by one of upgrade and downgrade only")


def rename_pairs(fnode):
    """((table, old, new), node) for each statement, tables of names written as dictionaries, loops over them"""
    out = []
    dicts = {}

    def subst(js, names):
        if isinstance(js, ast.Constant):
            return js.value
        s = ""
        for x in js.values:
            if isinstance(x, ast.Constant):
                s += x.value
            elif isinstance(x.value, ast.Name) and x.value.id in names:
                s += names[x.value.id]
            else:
                return None
        return s

    def block(body, names):
        for st in body:
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and isinstance(st.value, ast.Dict) \
                    and all(isinstance(x, ast.Constant) for x in st.value.keys + st.value.values):
                dicts[st.targets[0].id] = [(k.value, v.value) for k, v in zip(st.value.keys, st.value.values)]
            elif isinstance(st, ast.For):
                it = st.iter
                rows = None
                if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "items" and isinstance(it.func.value, ast.Name) and it.func.value.id in dicts \
                        and isinstance(st.target, ast.Tuple) and len(st.target.elts) == 2:
                    rows = [dict(zip([t.id for t in st.target.elts if isinstance(t, ast.Name)], p)) for p in dicts[it.func.value.id]]
                elif isinstance(it, ast.Name) and it.id in dicts and isinstance(st.target, ast.Name):
                    rows = [{st.target.id: k} for k, _v in dicts[it.id]]
                elif isinstance(it, (ast.List, ast.Tuple)) and all(isinstance(x, ast.Constant) for x in it.elts) and isinstance(st.target, ast.Name):
                    rows = [{st.target.id: x.value} for x in it.elts]
                for r in rows or [{}]:
                    block(st.body, {**names, **r})
            else:
                for n in ast.walk(st):
                    if isinstance(n, (ast.Constant, ast.JoinedStr)):
                        if isinstance(n, ast.Constant) and not isinstance(n.value, str):
                            continue
                        t = subst(n, names)
                        w = t and re.match(r"\s*alter table (\w+) rename column (\w+) to (\w+)\s*;?\s*$", t, re.I)
                        if w:
                            out.append((w.groups(), st))
                for sub in ("body", "orelse", "finalbody"):
                    if isinstance(st, (ast.If, ast.Try, ast.With, ast.While)) and getattr(st, sub, None):
                        pass
    def flat(body):
        for st in body:
            if isinstance(st, (ast.If, ast.Try, ast.With, ast.While)):
                for sub in ("body", "orelse", "finalbody"):
                    yield from flat(getattr(st, sub, []) or [])
                for h in getattr(st, "handlers", []):
                    yield from flat(h.body)
            else:
                yield st
    block(list(flat(fnode.body)), {})
    return out


def check_rows(project, tier):
    res = Result()
    tables, homes = row_tables(project)
    res.count("row_classes", len(tables))
    res.guard("row_classes", 3)
    seen = set()

    def put(m, q, rule, node, what, msg):
        k = (q, rule, what, msg)
        if k not in seen:
            seen.add(k)
            res.add(rule, f"{m.relpath}:{q}", what, msg, getattr(node, "lineno", None))

    for cname, t in tables.items():
        reprs(homes[cname], t.node, t, lambda rule, node, what, msg: put(homes[cname], cname, rule, node, what, msg), res.count)
    renames(project, tables, put, res.count)
    for m, q, fnode in functions(project):
        local = {}
        for name in tables:
            if homes[name] is m:
                local[name] = name
        for alias, target in getattr(m, "imports", {}).items():
            last = (target[-1] if isinstance(target, tuple) else str(target)).split(".")[-1]
            if last in tables:
                local[alias] = last
        if not local and not any(isinstance(n, ast.Attribute) and n.attr in tables for n in walk_own(fnode)):
            continue
        if not any((isinstance(n, ast.Name) and n.id in local) or (isinstance(n, ast.Attribute) and n.attr in tables) for n in walk_own(fnode)):
            continue
        p = Rows(fnode, tables, local, lambda *a: put(m, q, *a), res.count)
        p.run(())
        res.count("functions_with_rows")
        criteria(p, m, q, put, res)
    res.guard("functions_with_rows", 8)
    res.guard("queries_sent", 10)
    return res


def criteria(p, m, q, put, res):
    """what the caller narrows the rows by reaches the query, whenever it is given"""
    handed = {y.id for x in walk_own(p.fnode) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "self"
              for y in ast.walk(x) if isinstance(y, ast.Name)}
    for node, rows, query, s in p.takes:
        if set(rows) & p.built:
            continue
        cols = {c for r in rows for c in p.tables[r].cols}
        for par in sorted(p.params):
            if stem(par) not in cols:
                continue
            res.count("criteria_checked")
            if par in query[4] or par in handed:
                continue
            if p._know(s, par, None) is True:
                continue
            put(m, q, "criteria-dropped", node, par, f"rows are asked for without regard to {par!r}, which the caller gives to narrow them")
