"""Options take effect; computed values are used."""
import ast
import os
import re

from ..core import Result
from .defassign import functions, local_names

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)


def loads(node):
    """names read by an expression / statement, nested scopes included"""
    out = set()
    for x in ast.walk(node):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            out.add(x.id)
    return out


def captured(fnode):
    """names used inside nested functions, lambdas, classes or comprehensions' lambdas: never dead"""
    out = set()
    for x in ast.walk(fnode):
        if x is not fnode and isinstance(x, FUNCS):
            out |= loads(x) | {n.id for n in ast.walk(x) if isinstance(n, ast.Name)}
        elif isinstance(x, (ast.Global, ast.Nonlocal)):
            out |= set(x.names)
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("locals", "vars", "eval", "exec"):
            out |= {n.id for n in ast.walk(fnode) if isinstance(n, ast.Name)}
    return out


class Live:
    """backward liveness over structured code"""

    def __init__(self, fnode):
        self.f = fnode
        self.dead = {}   # id(stmt) -> (stmt, name)   decided on the last pass over the statement
        self.keep = captured(fnode)

    def run(self):
        self.entry = self.block(self.f.body, frozenset(), None, None, frozenset())
        return self

    def block(self, stmts, out, brk, cont, exc):
        for st in reversed(stmts):
            out = self.stmt(st, out, brk, cont, exc) | (exc if self.may_raise(st) else frozenset())
        return out

    @staticmethod
    def may_raise(st):
        return not isinstance(st, (ast.Pass, ast.Break, ast.Continue, ast.Global, ast.Nonlocal))

    def store(self, target, out, st, report):
        if isinstance(target, ast.Name):
            if report:
                k = (id(st), target.id)
                if target.id not in out:
                    self.dead.setdefault(k, (st, target.id))
                else:
                    self.dead[k] = None
            return out - {target.id}
        if isinstance(target, (ast.Tuple, ast.List)):
            for e in target.elts:
                out = self.store(e, out, st, False)
            return out
        if isinstance(target, ast.Starred):
            return self.store(target.value, out, st, False)
        return out | loads(target)

    def stmt(self, st, out, brk, cont, exc):
        if isinstance(st, ast.Assign):
            for t in st.targets:
                out = self.store(t, out, st, len(st.targets) == 1)
            return out | loads(st.value)
        if isinstance(st, ast.AnnAssign):
            if st.value is None:
                return out
            return self.store(st.target, out, st, True) | loads(st.value)
        if isinstance(st, ast.AugAssign):
            o = self.store(st.target, out, st, True) | loads(st.value)
            if isinstance(st.target, ast.Name):
                o = o | {st.target.id}
            return o
        if isinstance(st, ast.Return):
            return loads(st)
        if isinstance(st, ast.Raise):
            return exc | loads(st)
        if isinstance(st, ast.Break):
            return brk if brk is not None else frozenset()
        if isinstance(st, ast.Continue):
            return cont if cont is not None else frozenset()
        if isinstance(st, ast.If):
            a = self.block(st.body, out, brk, cont, exc)
            b = self.block(st.orelse, out, brk, cont, exc)
            return a | b | loads(st.test)
        if isinstance(st, (ast.For, ast.AsyncFor)):
            after = self.block(st.orelse, out, brk, cont, exc) if st.orelse else out
            head = after
            for _ in range(4):
                body = self.block(st.body, head, out, head, exc)
                new = after | self.store(st.target, body, st, False)
                if new <= head:
                    break
                head = head | new
            return head | loads(st.iter)
        if isinstance(st, ast.While):
            after = self.block(st.orelse, out, brk, cont, exc) if st.orelse else out
            head = after | loads(st.test)
            for _ in range(4):
                new = after | loads(st.test) | self.block(st.body, head, out, head, exc)
                if new <= head:
                    break
                head = head | new
            return head
        if isinstance(st, (ast.With, ast.AsyncWith)):
            o = self.block(st.body, out, brk, cont, exc | out)
            for it in reversed(st.items):
                if it.optional_vars is not None:
                    o = self.store(it.optional_vars, o, st, False)
                o = o | loads(it.context_expr)
            return o
        if isinstance(st, (ast.Try, getattr(ast, "TryStar", ast.Try))):
            fin = out
            if st.finalbody:
                fin = self.block(st.finalbody, out, brk, cont, exc)
            h = frozenset()
            for hd in st.handlers:
                hb = self.block(hd.body, fin, brk, cont, exc | fin)
                if hd.type is not None:
                    hb = hb | loads(hd.type)
                h = h | hb
            inner = exc | h | (fin if st.finalbody else frozenset())
            o = self.block(st.orelse, fin, brk, cont, inner) if st.orelse else fin
            return self.block(st.body, o, brk, cont, inner)
        if isinstance(st, ast.Match):
            o = out
            for c in st.cases:
                b = self.block(c.body, out, brk, cont, exc)
                if c.guard is not None:
                    b = b | loads(c.guard)
                o = o | b | loads(c.pattern)
            return o | loads(st.subject)
        if isinstance(st, ast.Delete):
            return out | {n.id for t in st.targets for n in ast.walk(t) if isinstance(n, ast.Name)}
        return out | loads(st)


def trivial(v):
    """default / sentinel initialisation"""
    if isinstance(v, ast.Constant):
        return True
    if isinstance(v, ast.UnaryOp):
        return trivial(v.operand)
    if isinstance(v, (ast.List, ast.Tuple, ast.Set)):
        return not v.elts or all(trivial(e) for e in v.elts)
    if isinstance(v, ast.Dict):
        return not v.values or all(trivial(e) for e in v.values)
    if isinstance(v, (ast.Name,)):
        return True
    if isinstance(v, ast.Attribute):
        return trivial(v.value)
    if isinstance(v, ast.Call):
        f = ast.unparse(v.func)
        return f.split(".")[-1] in ("zeros", "ones", "empty", "full", "zeros_like", "ones_like", "dict", "list", "set", "nan", "array", "DataFrame") or (f == "float" and len(v.args) == 1 and trivial(v.args[0]))
    if isinstance(v, ast.BinOp):
        return trivial(v.left) and trivial(v.right) and not loads(v) - {"np", "numpy"}
    return False


def all_fresh(fnode, name):
    """every binding of the name makes a new object, so an in-place update is visible under this name only"""
    for x in ast.walk(fnode):
        if isinstance(x, ast.arg) and x.arg == name:
            return False
        if isinstance(x, (ast.For, ast.comprehension)) and name in {n.id for n in ast.walk(x.target) if isinstance(n, ast.Name)}:
            return False
        if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None:
            for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                if isinstance(t, ast.Name) and t.id == name:
                    if not isinstance(x.value, (ast.Constant, ast.BinOp, ast.UnaryOp, ast.JoinedStr, ast.ListComp)):
                        return False
                elif isinstance(t, (ast.Tuple, ast.List)) and name in {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}:
                    return False
    return True


def check_dead(project, tier):
    res = Result()
    for m, q, node in functions(project):
        lv = Live(node).run()
        local = local_names(node)
        res.count("functions")
        for k, d in lv.dead.items():
            res.count("assignments")
            if d is None:
                continue
            st, name = d
            if name not in local or name in lv.keep or name.startswith("_"):
                continue
            v = st.value
            if isinstance(st, ast.AugAssign) and not all_fresh(node, name):
                res.count("in_place_updates_of_possible_views")
                continue
            if trivial(v) and not isinstance(st, ast.AugAssign):
                res.count("default_initialisations")
                continue
            res.add("computed-then-ignored", f"{m.relpath}:{q}", f"{name} = {ast.unparse(v)[:80]}",
                    f"the value assigned to {name!r} is computed but never used on any path", st.lineno)
    return res


# ------------------------------------------------------------------ options
def effective_names(fnode, attr_ok):
    """names whose value can influence something observable (backward slice, flow-insensitive)"""
    eff = set()
    body_cache = {}

    def has_effect(stmts):
        for st in stmts:
            if isinstance(st, (ast.Return, ast.Raise, ast.Assert, ast.Delete, ast.With, ast.For, ast.While, ast.Try, ast.Break, ast.Continue,
                               ast.FunctionDef, ast.ClassDef, ast.Match, ast.Import, ast.ImportFrom)):
                return True
            if isinstance(st, ast.Expr) and not isinstance(st.value, (ast.Constant, ast.Name)):
                return True
            if isinstance(st, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                    if target_eff(t):
                        return True
                if st.value is not None and any(isinstance(x, (ast.Yield, ast.Await)) for x in ast.walk(st.value)):
                    return True
            if isinstance(st, ast.If) and (has_effect(st.body) or has_effect(st.orelse)):
                return True
        return False

    def target_eff(t):
        if isinstance(t, ast.Name):
            return t.id in eff
        if isinstance(t, (ast.Tuple, ast.List)):
            return any(target_eff(e) for e in t.elts)
        if isinstance(t, ast.Starred):
            return target_eff(t.value)
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
            return attr_ok(t.attr)
        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in locals_:
            return t.value.id in eff
        return True

    locals_ = local_names(fnode)
    changed = True

    def visit(stmts):
        for st in stmts:
            if isinstance(st, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                ts = st.targets if isinstance(st, ast.Assign) else [st.target]
                if any(target_eff(t) for t in ts):
                    if st.value is not None:
                        eff.update(loads(st.value))
                    for t in ts:
                        eff.update(loads(t))
                elif st.value is not None and any(isinstance(x, (ast.Yield, ast.Await)) for x in ast.walk(st.value)):
                    eff.update(loads(st.value))
                # a call may have an effect of its own, but a value handed only to a dead result is not counted as one
            elif isinstance(st, ast.If):
                if has_effect(st.body) or has_effect(st.orelse):
                    eff.update(loads(st.test))
                visit(st.body)
                visit(st.orelse)
            elif isinstance(st, (ast.For, ast.AsyncFor)):
                eff.update(loads(st.iter))
                visit(st.body)
                visit(st.orelse)
            elif isinstance(st, ast.While):
                eff.update(loads(st.test))
                visit(st.body)
                visit(st.orelse)
            elif isinstance(st, (ast.With, ast.AsyncWith)):
                for it in st.items:
                    eff.update(loads(it.context_expr))
                visit(st.body)
            elif isinstance(st, (ast.Try, getattr(ast, "TryStar", ast.Try))):
                visit(st.body)
                visit(st.orelse)
                visit(st.finalbody)
                for h in st.handlers:
                    visit(h.body)
            elif isinstance(st, ast.Match):
                eff.update(loads(st.subject))
                for c in st.cases:
                    visit(c.body)
            else:
                eff.update(loads(st))

    n = -1
    while n != len(eff):
        n = len(eff)
        visit(fnode.body)
    return eff


def stub(fnode):
    body = [b for b in fnode.body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
    return all(isinstance(b, (ast.Pass, ast.Raise)) for b in body) or any("abstract" in ast.unparse(d) for d in fnode.decorator_list)


def templates(project):
    for dp, dn, fn in os.walk(os.path.join(project.repo, "rubin_sim")):
        for f in fn:
            if f.endswith((".html", ".j2", ".jinja2")):
                yield open(os.path.join(dp, f), encoding="utf-8", errors="replace").read()


def check_options(project, tier):
    res = Result()
    ext_reads = {}   # attr -> [(module, receiver name)]
    for t in templates(project):   # what the web pages show
        for a in re.findall(r"\.\s*([A-Za-z_]\w*)", t):
            ext_reads.setdefault(a, set()).add(("", ""))
    for m in project.modules.values():
        own = {id(x) for c in ast.walk(m.tree) if isinstance(c, ast.ClassDef) for x in ast.walk(c)
               if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self"}
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                v = x.value
                if isinstance(v, ast.Name) and (id(x) in own or v.id == "args" or v.id in m.imports):
                    continue   # not self, not a module, not a parsed command line
                while isinstance(v, (ast.Subscript, ast.Call)):
                    v = v.value if isinstance(v, ast.Subscript) else v.func
                r = v.id if isinstance(v, ast.Name) else v.attr if isinstance(v, ast.Attribute) else ""
                ext_reads.setdefault(x.attr, set()).add((m.relpath, r.lower().replace("_", "")))
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("getattr", "hasattr") and len(x.args) > 1 \
                    and isinstance(x.args[1], ast.Constant):
                ext_reads.setdefault(x.args[1].value, set()).add((m.relpath, ""))

    def ext_read(cls, attr):
        """read on an object that may be of this class: in its own module, or through a name that says so"""
        names = [k.name.lower() for k in project.mro(cls) if hasattr(k, "name")] + [k.name.lower() for k in project.subclasses(cls)]
        for path, r in ext_reads.get(attr, ()):
            if path == cls.relpath or len(r) <= 1 or any(r in n or r.rstrip("s") in n or n in r for n in names):
                return True
        return False

    fam_cache = {}

    def fam_reads(cls):
        if cls in fam_cache:
            return fam_cache[cls]
        fam, todo = set(), [cls]
        # attributes live on the instance: any class sharing an instance with this one
        for k in project.all_classes():
            if k is cls or cls in project.mro(k):
                fam |= set(project.mro(k))
        out, is_open = set(), False
        for k in fam:
            if not hasattr(k, "node"):
                continue
            for x in ast.walk(k.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                    out.add(x.attr)
                elif isinstance(x, ast.Attribute) and x.attr == "__dict__":
                    is_open = True
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("getattr", "vars") and not (len(x.args) > 1 and isinstance(x.args[1], ast.Constant)):
                    is_open = True
                elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Attribute):
                    pass
        ext = bool(project.ext_bases(cls))
        fam_cache[cls] = (out, is_open, ext)
        return fam_cache[cls]

    for fi in project.all_functions():
        f, cls = fi.node, fi.cls
        if stub(f):
            continue
        a = f.args
        pos = a.posonlyargs + a.args
        opts = [p.arg for p in pos[len(pos) - len(a.defaults):]] if a.defaults else []
        opts += [p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        if cls is not None and f.name != "__init__":
            fixed = set()
            if project.ext_bases(cls):
                continue
            for k in list(project.mro(cls)[1:]) + list(project.subclasses(cls)):
                if hasattr(k, "methods") and f.name in k.methods:
                    fixed |= {p.arg for p in k.methods[f.name].node.args.args + k.methods[f.name].node.args.kwonlyargs}
            opts = [o for o in opts if o not in fixed]
        opts = [o for o in opts if not o.startswith("_")]
        if not opts:
            continue

        def attr_ok(attr, cls=cls):
            if cls is None:
                return True
            r, is_open, ext = fam_reads(cls)
            return ext or is_open or attr in r or ext_read(cls, attr) or attr.startswith("__")

        lv = Live(f).run()
        keep = captured(f)
        eff = effective_names(f, attr_ok)
        for o in opts:
            res.count("options")
            if o in keep:
                continue
            w = f"{fi.relpath}:{fi.qualname}"
            if o not in lv.entry:
                res.add("option-ineffective", w, o, f"the value given for option {o!r} is never read", f.lineno)
            elif o not in eff:
                res.add("option-ineffective", w, o,
                        f"option {o!r} is read but reaches nothing that is ever used", f.lineno)
        res.count("functions_with_options")
    res.guard("options", 1500)
    return res


# ------------------------------------------------------------------ keywords that disappear
def swallows(project, g, seen=()):
    """(accepted names) when g takes **kw but drops what it does not recognise; None otherwise"""
    a = g.node.args
    if not a.kwarg:
        return None
    kw = a.kwarg.arg
    uses = [x for x in ast.walk(g.node) if isinstance(x, ast.Name) and x.id == kw]
    names = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    taken, ok = set(), set()
    for n in ast.walk(g.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == kw \
                and n.func.attr in ("pop", "get") and n.args and isinstance(n.args[0], ast.Constant):
            taken.add(n.args[0].value)
            ok.add(id(n.func.value))
        elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == kw and isinstance(n.slice, ast.Constant):
            taken.add(n.slice.value)
            ok.add(id(n.value))
        elif isinstance(n, ast.Compare) and len(n.comparators) == 1 and isinstance(n.comparators[0], ast.Name) \
                and n.comparators[0].id == kw and isinstance(n.left, ast.Constant):
            ok.add(id(n.comparators[0]))
    if any(id(u) not in ok for u in uses):
        return None
    return names | taken


def check_swallowed(project, tier):
    from .linking import call_target
    res = Result()
    for fi in project.all_functions():
        for n in ast.walk(fi.node):
            if not isinstance(n, ast.Call):
                continue
            t = call_target(project, fi, n)
            if t is None:
                continue
            res.count("resolved_calls")
            g = t[0]
            acc = swallows(project, g)
            # functions handed to a forwarding callee: f(..., func, k=v) with def f(..., fn, **kw): fn(..., **kw)
            if acc is not None and g.cls is None or (acc is not None and g.name == "__init__"):
                res.count("calls_into_dropping_kwargs")
                for k in n.keywords:
                    if k.arg and k.arg not in acc:
                        res.add("keyword-dropped", f"{fi.relpath}:{fi.qualname}", f"{ast.unparse(n.func)[:60]}({k.arg}=)",
                                f"keyword {k.arg!r} is accepted by {g.qualname} but silently dropped", n.lineno)
            fwd = forwards_to_param(g)
            if fwd:
                params = [x.arg for x in g.node.args.args]
                bound = {p: a for p, a in zip(params[t[1] and 1 or 0:], n.args)}
                bound.update({k.arg: k.value for k in n.keywords if k.arg})
                dfl = g.defaults()
                for p in fwd:
                    v = bound.get(p, dfl.get(p))
                    if isinstance(v, ast.Name):
                        h = project.resolve(fi.module if p in bound else g.module, v.id)
                        if h is not None and h[0] == "func":
                            h = h[1]
                            a2 = swallows(project, h)
                            named = {x.arg for x in g.node.args.args + g.node.args.kwonlyargs}
                            ok2 = a2 if a2 is not None else ({x.arg for x in h.node.args.args + h.node.args.kwonlyargs} if not h.node.args.kwarg else None)
                            if ok2 is not None:
                                res.count("calls_through_function_arguments")
                                for k in n.keywords:
                                    if k.arg and k.arg not in named and k.arg not in ok2:
                                        res.add("keyword-dropped", f"{fi.relpath}:{fi.qualname}", f"{ast.unparse(n.func)[:60]}({k.arg}=)",
                                                f"keyword {k.arg!r} is passed on by {g.qualname} to {h.qualname}, which does not use it", n.lineno)
    return res


def forwards_to_param(g):
    """parameters of g that are called with g's own **kw"""
    a = g.node.args
    if not a.kwarg:
        return set()
    ps = {x.arg for x in a.args + a.kwonlyargs}
    return {n.func.id for n in ast.walk(g.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ps
            and any(k.arg is None and isinstance(k.value, ast.Name) and k.value.id == a.kwarg.arg for k in n.keywords)}
