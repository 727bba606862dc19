"""Development tool: apply a behaviour-preserving transformation to a whole copy of the package.
usage: refactor.py NAME DEST   (then run the checks with RSA_REPO=DEST)"""
import ast, os, shutil, sys, builtins, copy

REPO = os.environ.get("RSA_REPO", "/repo")


def own(fn):
    """nodes of a function without nested scopes"""
    st = list(ast.iter_child_nodes(fn))
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            st.extend(ast.iter_child_nodes(n))


def nested(fn):
    return any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) for n in ast.walk(fn) if n is not fn)


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])


class Base(ast.NodeTransformer):
    n = 0

    def fresh(self, b="tmp_r"):
        self.n += 1
        return f"{b}{self.n}"


class Unparse(Base):
    pass


class Rename(Base):
    """rename every plain local of a function"""

    def visit_FunctionDef(self, fn):
        if any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(fn)) or any(
                isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("locals", "eval", "exec") for n in ast.walk(fn)):
            return fn
        ps = set()
        for n in ast.walk(fn):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                ps |= set(params(n))
        st = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - ps
        imp = {(a.asname or a.name).split(".")[0] for n in ast.walk(fn) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        defs = {n.name for n in ast.walk(fn) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
        exc = {n.name for n in ast.walk(fn) if isinstance(n, ast.ExceptHandler)}
        st -= imp | defs | exc
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id in st:
                n.id = n.id + "_v"
        return fn

    def visit_ClassDef(self, c):
        for b in c.body:
            if isinstance(b, ast.FunctionDef):
                self.visit_FunctionDef(b)
        return c


class RetTemp(Base):
    """return e -> t = e; return t"""

    def visit_Return(self, r):
        if r.value is None or isinstance(r.value, (ast.Name, ast.Constant)):
            return r
        t = self.fresh("result_r")
        return [ast.Assign([ast.Name(t, ast.Store())], r.value), ast.Return(ast.Name(t, ast.Load()))]


class SwapIf(Base):
    def visit_If(self, i):
        self.generic_visit(i)
        if i.orelse and not (len(i.orelse) == 1 and isinstance(i.orelse[0], ast.If)):
            t = i.test.operand if isinstance(i.test, ast.UnaryOp) and isinstance(i.test.op, ast.Not) else ast.UnaryOp(ast.Not(), i.test)
            return ast.If(t, i.orelse, i.body)
        return i


class NestElif(Base):
    """if a: A (no else), last statement of a function -> guard; here: `and` split into nested ifs when there is no else"""

    def visit_If(self, i):
        self.generic_visit(i)
        if not i.orelse and isinstance(i.test, ast.BoolOp) and isinstance(i.test.op, ast.And):
            b = i.body
            for v in reversed(i.test.values):
                b = [ast.If(v, b, [])]
            return b[0]
        return i


class ArgTemp(Base):
    """hoist call arguments of statement-level simple calls/assignments into temporaries (left to right)"""

    def do(self, s, call):
        pre = []
        if not isinstance(call, ast.Call) or any(isinstance(a, ast.Starred) for a in call.args):
            return [s]
        if isinstance(call.func, ast.Attribute) and not isinstance(call.func.value, (ast.Name,)):
            return [s]
        if isinstance(call.func, ast.Name) and call.func.id in ("super", "isinstance", "hasattr", "print"):
            return [s]
        for k, a in enumerate(call.args):
            if isinstance(a, (ast.Call, ast.BinOp, ast.Subscript)):
                t = self.fresh("arg_r")
                pre.append(ast.Assign([ast.Name(t, ast.Store())], a))
                call.args[k] = ast.Name(t, ast.Load())
        for kw in call.keywords:
            if kw.arg and isinstance(kw.value, (ast.Call, ast.BinOp, ast.Subscript)):
                t = self.fresh("arg_r")
                pre.append(ast.Assign([ast.Name(t, ast.Store())], kw.value))
                kw.value = ast.Name(t, ast.Load())
        return pre + [s]

    infn = 0

    def visit_FunctionDef(self, f):
        self.infn += 1
        self.generic_visit(f)
        self.infn -= 1
        return f

    def visit_Assign(self, s):
        return self.do(s, s.value) if self.infn else s

    def visit_Expr(self, s):
        return self.do(s, s.value) if self.infn else s

    def visit_Return(self, s):
        return self.do(s, s.value) if s.value is not None else s


class CompLoop(Base):
    """x = [e for t in it if c] -> loop"""
    infn = 0

    def visit_FunctionDef(self, f):
        self.infn += 1
        self.f = f
        self.generic_visit(f)
        self.infn -= 1
        return f

    def visit_Assign(self, s):
        if self.infn and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1 and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            g = s.value.generators[0]
            x = s.targets[0].id
            if any(isinstance(n, ast.Name) and n.id == x for n in ast.walk(s.value)):
                return s
            ap = ast.Expr(ast.Call(ast.Attribute(ast.Name(x, ast.Load()), "append", ast.Load()), [s.value.elt], []))
            b = [ap]
            if g.ifs:
                b = [ast.If(g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs), b, [])]
            return [ast.Assign([ast.Name(x, ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, b, [])]
        return s


class LoopIndex(Base):
    """for x in name -> for i in range(len(name)): x = name[i]   (only lists built locally by a list display)"""

    def visit_FunctionDef(self, f):
        lists = {}
        for n in own(f):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                lists.setdefault(n.targets[0].id, []).append(isinstance(n.value, (ast.List, ast.ListComp)))
        self.ok = {k for k, v in lists.items() if all(v)}
        self.generic_visit(f)
        return f

    def visit_For(self, l):
        self.generic_visit(l)
        if isinstance(l.iter, ast.Name) and l.iter.id in getattr(self, "ok", ()):
            i = self.fresh("idx_r")
            l.body = [ast.Assign([l.target], ast.Subscript(ast.Name(l.iter.id, ast.Load()), ast.Name(i, ast.Load()), ast.Load()))] + l.body
            l.iter = ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [ast.Name(l.iter.id, ast.Load())], [])], [])
            l.target = ast.Name(i, ast.Store())
        return l


class EnumLoop(Base):
    def visit_For(self, l):
        self.generic_visit(l)
        if isinstance(l.iter, ast.Call) and isinstance(l.iter.func, ast.Name) and l.iter.func.id in ("enumerate", "zip") or not isinstance(l.target, ast.Name):
            return l
        i = self.fresh("n_r")
        l.target = ast.Tuple([ast.Name(i, ast.Store()), l.target], ast.Store())
        l.iter = ast.Call(ast.Name("enumerate", ast.Load()), [l.iter], [])
        return l


class Wrapper(Base):
    """def f(args): body  ->  def f(args): return _f_impl(args)  with the body moved"""

    def conv(self, f, method):
        if f.decorator_list or f.name.startswith("__") or f.args.vararg or f.args.kwarg or f.args.posonlyargs:
            return [f]
        if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Nonlocal)) for n in ast.walk(f)):
            return [f]
        if any(isinstance(n, ast.Name) and n.id == "super" for n in ast.walk(f)):
            return [f]
        impl = copy.deepcopy(f)
        impl.name = "_" + f.name.lstrip("_") + "_impl"
        impl.args.defaults = []
        impl.args.kw_defaults = []
        impl.args.args = impl.args.args + impl.args.kwonlyargs
        impl.args.kwonlyargs = []
        names = [a.arg for a in impl.args.args]
        doc = [f.body[0]] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
        impl.body = impl.body[len(doc):] or [ast.Pass()]
        if method:
            call = ast.Call(ast.Attribute(ast.Name(names[0], ast.Load()), impl.name, ast.Load()), [ast.Name(x, ast.Load()) for x in names[1:]], [])
        else:
            call = ast.Call(ast.Name(impl.name, ast.Load()), [ast.Name(x, ast.Load()) for x in names], [])
        hasret = any(isinstance(n, ast.Return) and n.value is not None for n in own(f))
        f.body = doc + [ast.Return(call) if hasret else ast.Expr(call)]
        return [f, impl]

    def visit_Module(self, m):
        out = []
        for b in m.body:
            if isinstance(b, ast.FunctionDef):
                out += self.conv(b, False)
            elif isinstance(b, ast.ClassDef):
                nb = []
                for x in b.body:
                    if isinstance(x, ast.FunctionDef) and x.args.args and x.args.args[0].arg == "self":
                        nb += self.conv(x, True)
                    else:
                        nb.append(x)
                b.body = nb
                out.append(b)
            else:
                out.append(b)
        m.body = out
        return m


class ExprHelper(Base):
    """x = <expr over local names> -> x = _helper(names)   (pure arithmetic / numpy calls only)"""

    def visit_Module(self, m):
        self.helpers = []
        top = {n for b in m.body for n in ([b.name] if isinstance(b, (ast.FunctionDef, ast.ClassDef)) else [])}
        self.glob = top | {(a.asname or a.name).split(".")[0] for b in m.body if isinstance(b, (ast.Import, ast.ImportFrom)) for a in b.names} | set(dir(builtins))
        self.glob |= {t.id for b in m.body if isinstance(b, ast.Assign) for t in b.targets if isinstance(t, ast.Name)}
        self.generic_visit(m)
        m.body += self.helpers
        return m

    infn = 0

    def visit_FunctionDef(self, f):
        self.infn += 1
        old = getattr(self, "loc", None)
        self.loc = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | set(params(f))
        imps = any(isinstance(n, (ast.Import, ast.ImportFrom)) for n in ast.walk(f))
        if not imps and self.infn == 1:
            self.generic_visit(f)
        self.loc = old
        self.infn -= 1
        return f

    def visit_Assign(self, s):
        if not self.infn or not isinstance(s.value, (ast.BinOp, ast.Call)) or len(s.targets) != 1:
            return s
        if isinstance(s.value, ast.Call) and not (isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == "np"):
            return s
        if any(isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.NamedExpr, ast.Starred)) for n in ast.walk(s.value)):
            return s
        names = []
        for n in ast.walk(s.value):
            if isinstance(n, ast.Name) and n.id not in names and n.id in self.loc:
                names.append(n.id)
            elif isinstance(n, ast.Name) and n.id not in self.loc and n.id not in self.glob:
                return s
        h = self.fresh("_helper_r")
        self.helpers.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, []), [ast.Return(s.value)], [], None))
        s.value = ast.Call(ast.Name(h, ast.Load()), [ast.Name(x, ast.Load()) for x in names], [])
        return s


class ConstHoist(Base):
    """string subscript keys become module-level constants"""

    def visit_Module(self, m):
        self.c = {}
        self.generic_visit(m)
        k = 0
        while k < len(m.body) and (isinstance(m.body[k], (ast.Import, ast.ImportFrom)) or isinstance(m.body[k], ast.Expr) and isinstance(m.body[k].value, ast.Constant)
                                   or isinstance(m.body[k], ast.Assign) and getattr(m.body[k].targets[0], "id", "") == "__all__"):
            k += 1
        m.body[k:k] = [ast.Assign([ast.Name(v, ast.Store())], ast.Constant(s)) for s, v in self.c.items()]
        return m

    infn = 0

    def visit_FunctionDef(self, f):
        self.infn += 1
        self.generic_visit(f)
        self.infn -= 1
        return f

    def visit_Subscript(self, s):
        self.generic_visit(s)
        if self.infn and isinstance(s.slice, ast.Constant) and isinstance(s.slice.value, str):
            v = self.c.setdefault(s.slice.value, f"_KEY_R{len(self.c)}")
            s.slice = ast.Name(v, ast.Load())
        return s


class IfExpStmt(Base):
    """x = a if c else b -> if statement"""

    def visit_Assign(self, s):
        if isinstance(s.value, ast.IfExp) and len(s.targets) == 1:
            return ast.If(s.value.test, [ast.Assign(s.targets, s.value.body)], [ast.Assign(copy.deepcopy(s.targets), s.value.orelse)])
        return s

    def visit_Return(self, s):
        if isinstance(s.value, ast.IfExp):
            return ast.If(s.value.test, [ast.Return(s.value.body)], [ast.Return(s.value.orelse)])
        return s


class StmtIfExp(Base):
    """if c: x = a else: x = b -> x = a if c else b"""

    def visit_If(self, i):
        self.generic_visit(i)
        if len(i.body) == 1 and len(i.orelse) == 1 and all(isinstance(x, ast.Assign) and len(x.targets) == 1 for x in (i.body[0], i.orelse[0])) \
                and ast.dump(i.body[0].targets[0]) == ast.dump(i.orelse[0].targets[0]):
            return ast.Assign(i.body[0].targets, ast.IfExp(i.test, i.body[0].value, i.orelse[0].value))
        return i


class ElseReturn(Base):
    """if c: ...return  else: B -> if c: ...return; B     and the reverse"""

    def block(self, body):
        out = []
        for k, s in enumerate(body):
            if isinstance(s, ast.If) and s.orelse and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                e = s.orelse
                s.orelse = []
                out += [s] + self.block(e)
            elif isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and body[k + 1:]:
                s.orelse = self.block(body[k + 1:])
                out.append(s)
                return out
            else:
                out.append(s)
        return out

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        f.body = self.block(f.body)
        return f


class SelfAlias(Base):
    """read-only self attributes used more than once in a method get a local alias"""

    def visit_FunctionDef(self, f):
        if f.name == "__init__" or not f.args.args or f.args.args[0].arg != "self" or nested(f):
            return f
        st = {n.attr for n in ast.walk(f) if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del))}
        callm = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" for n in ast.walk(f))
        callm = callm or any(isinstance(n, ast.Name) and n.id == "super" for n in ast.walk(f)) or any(isinstance(n, ast.Call) and any(isinstance(a, ast.Name) and a.id == "self" for a in n.args) for n in ast.walk(f))
        if callm:
            return f
        called = {n.func.attr for n in ast.walk(f) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)}
        k = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        # only attributes read unconditionally in the first statement block
        cnt = {}
        for s in f.body:
            if isinstance(s, (ast.Assign, ast.Expr, ast.Return)):
                for n in ast.walk(s):
                    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Load):
                        cnt[n.attr] = cnt.get(n.attr, 0) + 1
            else:
                break
        al = [a for a in cnt if a not in st and a not in called]
        loc = {n.id for n in ast.walk(f) if isinstance(n, ast.Name)} | set(params(f))
        al = [a for a in al if a + "_a" not in loc]

        class R(ast.NodeTransformer):
            def visit_Attribute(s, n):
                s.generic_visit(n)
                if isinstance(n.value, ast.Name) and n.value.id == "self" and n.attr in al and isinstance(n.ctx, ast.Load):
                    return ast.Name(n.attr + "_a", ast.Load())
                return n
        f.body = [R().visit(b) for b in f.body]
        f.body[k:k] = [ast.Assign([ast.Name(a + "_a", ast.Store())], ast.Attribute(ast.Name("self", ast.Load()), a, ast.Load())) for a in al]
        return f


class WhileLoop(Base):
    """for i in range(n) -> while (no continue inside)"""

    def visit_For(self, l):
        self.generic_visit(l)
        if isinstance(l.iter, ast.Call) and isinstance(l.iter.func, ast.Name) and l.iter.func.id == "range" and len(l.iter.args) == 1 and not l.orelse \
                and isinstance(l.target, ast.Name) and not any(isinstance(n, ast.Continue) for n in ast.walk(l)) \
                and not any(isinstance(n, ast.Name) and n.id == l.target.id and isinstance(n.ctx, ast.Store) for b in l.body for n in ast.walk(b)):
            i = l.target.id
            return [ast.Assign([ast.Name(i, ast.Store())], ast.Constant(0)),
                    ast.While(ast.Compare(ast.Name(i, ast.Load()), [ast.Lt()], [l.iter.args[0]]),
                              l.body + [ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1))], [])]
        return l


class AugExpand(Base):
    """n += 1 -> n = n + 1 for names and constant numbers"""

    def visit_AugAssign(self, s):
        if isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, (int, float)):
            return ast.Assign([s.target], ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value))
        return s


class Reorder(Base):
    """swap adjacent independent simple assignments"""

    def pure(self, s):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute)) and \
            not any(isinstance(n, ast.Call) and not (isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "np") for n in ast.walk(s))

    def names(self, s):
        w = ast.unparse(s.targets[0])
        return w, {ast.unparse(n) for n in ast.walk(s.value) if isinstance(n, (ast.Name, ast.Attribute))}

    def block(self, b):
        k = 0
        while k + 1 < len(b):
            x, y = b[k], b[k + 1]
            if self.pure(x) and self.pure(y):
                wx, rx = self.names(x)
                wy, ry = self.names(y)
                if wx != wy and wx not in ry and wy not in rx and "__all__" not in (wx, wy):
                    b[k], b[k + 1] = y, x
                    k += 1
            k += 1
        return b

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        for n in ast.walk(f):
            for fld in ("body", "orelse", "finalbody"):
                v = getattr(n, fld, None)
                if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                    setattr(n, fld, self.block(v))
        return f


class Splat(Base):
    """keyword arguments passed through a literal dict"""

    def visit_Call(self, c):
        self.generic_visit(c)
        if len(c.keywords) >= 2 and all(k.arg for k in c.keywords) and not (isinstance(c.func, ast.Name) and c.func.id == "dict"):
            c.keywords = [ast.keyword(None, ast.Dict([ast.Constant(k.arg) for k in c.keywords], [k.value for k in c.keywords]))]
        return c


class DictCall(Base):
    """{'a': 1} -> dict(a=1)"""

    def visit_Dict(self, d):
        self.generic_visit(d)
        if d.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier() for k in d.keys) and len({k.value for k in d.keys}) == len(d.keys):
            import keyword
            if not any(keyword.iskeyword(k.value) for k in d.keys):
                return ast.Call(ast.Name("dict", ast.Load()), [], [ast.keyword(k.value, v) for k, v in zip(d.keys, d.values)])
        return d


class DictSteps(Base):
    """x = {..} -> x = {}; x[k] = v"""
    infn = 0

    def visit_FunctionDef(self, f):
        self.infn += 1
        self.generic_visit(f)
        self.infn -= 1
        return f

    def visit_Assign(self, s):
        if self.infn and isinstance(s.value, ast.Dict) and s.value.keys and all(k is not None for k in s.value.keys) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) \
                and not any(isinstance(n, ast.Name) and n.id == s.targets[0].id for n in ast.walk(s.value)):
            x = s.targets[0].id
            return [ast.Assign([ast.Name(x, ast.Store())], ast.Dict([], []))] + [
                ast.Assign([ast.Subscript(ast.Name(x, ast.Load()), k, ast.Store())], v) for k, v in zip(s.value.keys, s.value.values)]
        return s


class TryWrap(Base):
    """with-less no-op: if True-free; wrap the body of loops' simple statements in a nested block"""

    def visit_For(self, l):
        self.generic_visit(l)
        l.body = [ast.Expr(ast.Constant(None))] + l.body
        return l


class IsNoneFlip(Base):
    """x is None ↔ None is x, a == b ↔ b == a for constants"""

    def visit_Compare(self, c):
        self.generic_visit(c)
        if len(c.ops) == 1 and isinstance(c.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and isinstance(c.comparators[0], ast.Constant):
            return ast.Compare(c.comparators[0], c.ops, [c.left])
        return c


class FStr(Base):
    """'%s' % x -> f-string for simple templates"""

    def visit_BinOp(self, b):
        self.generic_visit(b)
        if isinstance(b.op, ast.Mod) and isinstance(b.left, ast.Constant) and isinstance(b.left.value, str) and b.left.value.count("%") == 1 and "%s" in b.left.value \
                and isinstance(b.right, (ast.Name, ast.Attribute)):
            x, y = b.left.value.split("%s")
            return ast.JoinedStr([v for v in (ast.Constant(x), ast.FormattedValue(b.right, -1), ast.Constant(y)) if not (isinstance(v, ast.Constant) and v.value == "")])
        return b


class Deco(Base):
    """annotate parameters and assignments"""

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        f.returns = f.returns or None
        for a in f.args.args:
            if a.arg not in ("self", "cls") and a.annotation is None:
                a.annotation = ast.Constant("object")
        return f

    infn = 0


class AnnAssignT(Base):
    infn = 0

    def visit_FunctionDef(self, f):
        if any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(f)):
            return f
        self.infn += 1
        self.generic_visit(f)
        self.infn -= 1
        return f

    def visit_Assign(self, s):
        if self.infn and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute)):
            return ast.AnnAssign(s.targets[0], ast.Constant("object"), s.value, 1 if isinstance(s.targets[0], ast.Name) else 0)
        return s


class BlockHelper(Base):
    """move the last half of a method body into a new method, passing the locals it reads"""

    def conv(self, f, method):
        if f.name.startswith("__") or f.decorator_list or f.args.vararg or f.args.kwarg or nested(f) or any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Import, ast.ImportFrom, ast.Global)) for n in ast.walk(f)) \
                or any(isinstance(n, ast.Name) and n.id == "super" for n in ast.walk(f)):
            return [f]
        k = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        body = f.body[k:]
        if len(body) < 4:
            return [f]
        # split point: all locals read in the tail and assigned in the head must be definitely assigned at top level
        h = len(body) // 2
        head, tail = body[:h], body[h:]
        assigned = set(params(f))
        for s in head:
            if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        assigned.add(n.id)
        maybe = {n.id for s in head for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        reads = []
        for s in tail:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and n.id not in reads and (n.id in assigned or n.id in maybe):
                    reads.append(n.id)
        comp = {n.id for s in head for c in ast.walk(s) if isinstance(c, (ast.ListComp, ast.DictComp, ast.GeneratorExp, ast.SetComp)) for g in c.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        if any(r not in assigned for r in reads) or comp & set(reads):
            return [f]
        hn = "_" + f.name.lstrip("_") + "_tail"
        if method:
            reads = [r for r in reads if r != "self"]
            g = ast.FunctionDef(hn, ast.arguments([], [ast.arg("self")] + [ast.arg(r) for r in reads], None, [], [], None, []), tail, [], None)
            call = ast.Call(ast.Attribute(ast.Name("self", ast.Load()), hn, ast.Load()), [ast.Name(r, ast.Load()) for r in reads], [])
        else:
            g = ast.FunctionDef(hn, ast.arguments([], [ast.arg(r) for r in reads], None, [], [], None, []), tail, [], None)
            call = ast.Call(ast.Name(hn, ast.Load()), [ast.Name(r, ast.Load()) for r in reads], [])
        ret = any(isinstance(n, ast.Return) and n.value is not None for s in tail for n in ast.walk(s))
        f.body = f.body[:k] + head + [ast.Return(call) if ret else ast.Expr(call)]
        return [f, g]

    visit_Module = Wrapper.visit_Module


T = dict(unparse=Unparse, rename=Rename, rettemp=RetTemp, swapif=SwapIf, nest=NestElif, argtemp=ArgTemp, comploop=CompLoop, loopindex=LoopIndex,
         enum=EnumLoop, wrapper=Wrapper, exprhelper=ExprHelper, consthoist=ConstHoist, ifexpstmt=IfExpStmt, stmtifexp=StmtIfExp, elsereturn=ElseReturn,
         selfalias=SelfAlias, whileloop=WhileLoop, aug=AugExpand, reorder=Reorder, splat=Splat, dictcall=DictCall, dictsteps=DictSteps, noop=TryWrap,
         flip=IsNoneFlip, fstr=FStr, annot=Deco, annassign=AnnAssignT, blockhelper=BlockHelper)


def main():
    name, dest = sys.argv[1:3]
    if os.path.exists(dest):
        shutil.rmtree(dest)
    shutil.copytree(os.path.join(REPO, "rubin_sim"), os.path.join(dest, "rubin_sim"), ignore=shutil.ignore_patterns("__pycache__"))
    for f in os.listdir(REPO):
        p = os.path.join(REPO, f)
        if os.path.isfile(p):
            shutil.copy(p, dest)
    ch = 0
    for d, _, fs in os.walk(os.path.join(dest, "rubin_sim")):
        for f in fs:
            if f.endswith(".py"):
                p = os.path.join(d, f)
                src = open(p).read()
                t = ast.parse(src)
                before = ast.dump(t)
                tr = T[name]()
                t2 = ast.fix_missing_locations(tr.visit(t))
                if ast.dump(t2) != before or name == "unparse":
                    ch += 1
                    out = ast.unparse(t2)
                    compile(out, p, "exec")
                    open(p, "w").write(out + "\n")
    print(name, "files changed:", ch)


if __name__ == "__main__":
    main()
