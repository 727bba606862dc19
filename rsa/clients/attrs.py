"""What constructors leave behind: attributes read by methods are assigned, and not None, after every way through the constructor."""
import ast

from ..core import Result
from ..flow import S, Flow, expr_key
from .nullness import FRAMEWORK_SUPPLIED, Null, co_supplied


def self_attr(n, me="self"):
    return n.attr if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me else None


class Init(Flow):
    """attributes assigned on each path of a constructor (data: frozenset of names)"""

    def __init__(self, cx, cls, fi):
        super().__init__(fi.node)
        self.cx, self.cls, self.fi = cx, cls, fi
        self.me = fi.params()[0] if fi.params() else "self"

    def join(self, a, b):
        return a & b

    def bind(self, target, s, value=None):
        add = {self_attr(n, self.me) for n in ast.walk(target) if isinstance(getattr(n, "ctx", None), ast.Store) and self_attr(n, self.me)}
        return [S(s.facts, s.data | add)] if add else [s]

    def expr(self, node, s):
        add = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Attribute) and f.attr == "__init__":
                    for p in self.cx.parents(self.fi.cls, n):
                        add |= self.cx.must(self.cls, p)
                elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == self.me:
                    g = self.cx.p.find_method(self.cls, f.attr)
                    if g is not None:
                        add |= self.cx.must(self.cls, g)
                elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                    for k in self.cx.p.mro(self.fi.cls)[1:]:
                        if hasattr(k, "methods") and f.attr in k.methods:
                            add |= self.cx.must(self.cls, k.methods[f.attr])
                            break
                elif isinstance(f, ast.Name) and f.id == "setattr" and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    add.add(n.args[1].value)
        return [S(s.facts, s.data | add)] if add else [s]

    def learn_assign(self, s, target, value):
        a = self_attr(target, self.me)
        if a and isinstance(value, ast.Name) and value.id in s.facts and s.facts[value.id][0] != "alias":
            k = "self." + a
            self.deps.setdefault(k, {k})
            return S({**s.facts, k: s.facts[value.id]}, s.data)
        return super().learn_assign(s, target, value)


class Context:
    def __init__(self, project):
        self.p = project
        self._must = {}
        self._stores = {}

    def parents(self, cls, call):
        """the constructors a `X.__init__` call runs"""
        f = call.func
        if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
            start = cls
            for k in self.p.mro(start)[1:]:
                if hasattr(k, "methods") and "__init__" in k.methods:
                    return [k.methods["__init__"]]
            return []
        if isinstance(f.value, ast.Name):
            r = self.p.resolve(cls.module, f.value.id)
            if r and r[0] == "class":
                g = self.p.find_method(r[1], "__init__")
                return [g] if g else []
        return []

    def must(self, cls, fi):
        """attributes a method assigns on every path"""
        k = (id(cls.node), id(fi.node))
        if k not in self._must:
            self._must[k] = frozenset()
            ends = [s.data for s in self.exits(cls, fi)]
            out = None
            for d in ends:
                out = d if out is None else out & d
            self._must[k] = out or frozenset()
        return self._must[k]

    def exits(self, cls, fi, facts=None):
        w = Init(self, cls, fi)
        for k in facts or {}:
            w.deps[k] = {k}
        w.run(frozenset(), dict(facts or {}))
        return [s for k, s, _ in w.exits if k in ("fall", "return")]

    def family(self, cls):
        return [k for k in self.p.mro(cls) if hasattr(k, "node")]

    def stores(self, cls):
        """attr -> set of method names of the class (and its bases) that store it"""
        r = self._stores.get(id(cls.node))
        if r is None:
            r = {}
            for k in self.family(cls):
                for st in ast.walk(k.node):
                    if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        for n in ast.walk(st):
                            a = self_attr(n)
                            if a and isinstance(n.ctx, (ast.Store, ast.Del)):
                                r.setdefault(a, []).append(st.name)
            self._stores[id(cls.node)] = r
        return r

    def class_level(self, cls):
        out = set()
        for k in self.family(cls):
            out |= set(k.attrs) | set(k.methods) | set(k.setters)
        return out

    def is_open(self, cls):
        for k in self.family(cls):
            if "__getattr__" in k.methods or "__getattribute__" in k.methods or "__new__" in k.methods:
                return True
            for n in ast.walk(k.node):
                if isinstance(n, ast.Attribute) and n.attr == "__dict__":
                    return True
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "vars") and not (len(n.args) > 1 and isinstance(n.args[1], ast.Constant)):
                    if n.func.id == "setattr" and n.args and not (isinstance(n.args[0], ast.Name) and n.args[0].id == "self"):
                        continue
                    if n.func.id == "setattr" and len(n.args) > 1 and prefix(k.node, n.args[1]) and not any(a.startswith(prefix(k.node, n.args[1])) for a in self.stores(cls)):
                        continue    # only attributes with another kind of name
                    return True
        return bool(self.p.ext_bases(cls))

    def init_only(self, cls):
        """methods reached only from the constructor"""
        called, outside = {}, set()
        for k in self.family(cls):
            for name, f in k.methods.items():
                for n in ast.walk(f.node):
                    a = self_attr(n)
                    if a and isinstance(n.ctx, ast.Load):
                        called.setdefault(a, set()).add(name)
        out = {"__init__"}
        ch = True
        while ch:
            ch = False
            for a, by in called.items():
                if a not in out and a.startswith("_") and by <= out:
                    out.add(a)
                    ch = True
        return out

    def own_exits(self, cls, init, seed=None, soft=False):
        """constructor exits with the facts methods can rely on: only attributes nothing else stores
        (soft: also those left at None that a method may fill in)"""
        st = self.stores(cls)
        ini = self.init_only(cls)
        params = set(init.params()[1:] + init.kwonly())
        alias = {}
        rebound = {n.id for n in ast.walk(init.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for n in ast.walk(init.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and self_attr(n.targets[0]) and isinstance(n.value, ast.Name) and n.value.id in params - rebound:
                if len(st.get(n.targets[0].attr, ())) == 1:
                    alias[n.value.id] = n.targets[0].attr
        out, seen = [], set()
        for s in self.exits(cls, init, seed):
            facts = {}
            for k, v in s.facts.items():
                if v[0] == "alias":
                    continue
                if k.startswith("self.") and k[5:].isidentifier() and (set(st.get(k[5:], ())) <= ini or soft and v == ("eq", None)):
                    facts[k] = v
                elif k in alias and alias[k] in s.data:
                    facts["self." + alias[k]] = v
            key = (tuple(sorted((k, repr(v)) for k, v in facts.items())), s.data)
            if key not in seen:
                seen.add(key)
                out.append((facts, s.data))
        return out


def prefix(cnode, e):
    """the text with which a computed attribute name starts"""
    if isinstance(e, ast.Name):
        v = [n.value for n in ast.walk(cnode) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
        return prefix(cnode, v[0]) if len(v) == 1 else ""
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "replace" and len(e.args) == 2 and isinstance(e.args[0], ast.Constant):
        p = prefix(cnode, e.func.value)
        return p.split(e.args[0].value)[0] if e.args[0].value else ""
    if isinstance(e, ast.JoinedStr) and e.values and isinstance(e.values[0], ast.Constant):
        return e.values[0].value
    if isinstance(e, ast.BinOp) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
        return e.left.value.split("%")[0]
    return ""


class Reads(Flow):
    """reads of attributes that this constructor path has not assigned"""

    def __init__(self, fi, cand, report, cx=None, cls=None, depth=0):
        super().__init__(fi.node)
        self.cand, self.report = cand, report
        self.safe = 0
        self.cx, self.cls, self.depth = cx, cls, depth
        self.tested = tested(fi.node)

    def join(self, a, b):
        return a & b

    def expr(self, node, s):
        if isinstance(node, ast.BoolOp):
            out, live = [], [s]
            isand = isinstance(node.op, ast.And)
            for v in node.values:
                nxt = []
                for x in live:
                    for t, b in self.cond(v, x):
                        (nxt if b == isand else out).append(t)
                live = nxt
            return self.squash(out + live)
        if isinstance(node, ast.IfExp):
            return self.squash([y for t, b in self.cond(node.test, s) for y in self.expr(node.body if b else node.orelse, t)])
        if isinstance(node, ast.Lambda):
            return [s]
        cur = [s]
        for c in ast.iter_child_nodes(node):
            if isinstance(c, ast.expr):
                cur = [t for x in cur for t in self.expr(c, x)]
            elif isinstance(c, ast.keyword):
                cur = [t for x in cur for t in self.expr(c.value, x)]
        a = self_attr(node)
        if a in self.cand and isinstance(node.ctx, ast.Load):
            for x in cur:
                if a not in x.data and not self.safe and a not in self.tested:
                    self.report(node, x)
        if isinstance(node, ast.Call) and self_attr(node.func) and self.depth < 4:
            g = self.cx.p.find_method(self.cls, node.func.attr)
            if g is not None and g.params() and g.params()[0] == "self":
                for x in cur:
                    facts = {k: v for k, v in x.facts.items() if k.startswith("self.")}
                    w = Reads(g, self.cand, self.report, self.cx, self.cls, self.depth + 1)
                    w.safe = self.safe
                    for k in facts:
                        w.deps[k] = {k}
                    w.run(x.data, facts)
        return cur

    def bind(self, target, s, value=None):
        add = {self_attr(n) for n in ast.walk(target) if isinstance(getattr(n, "ctx", None), ast.Store) and self_attr(n)}
        return [S(s.facts, s.data | add)] if add else [s]

    def do_Try(self, st, states):
        caught = any(h.type is None or any(e in ast.unparse(h.type) for e in ("AttributeError", "Exception")) for h in st.handlers)
        self.safe += caught
        o = super().do_Try(st, states)
        self.safe -= caught
        return o


def tested(fn):
    return {x.args[1].value for x in ast.walk(fn) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("hasattr", "getattr") and len(x.args) > 1 and isinstance(x.args[1], ast.Constant)}


def describe(facts):
    return "; ".join(f"{k} is {v[1]!r}" for k, v in facts.items() if v[0] in ("eq", "truth", "in"))[:160]


def reader_methods(cx, cls):
    ini = cx.init_only(cls)
    done = set()
    for k in cx.family(cls):
        for name, f in k.methods.items():
            if name in done:
                continue
            done.add(name)
            if name in ini or f.is_static or f.is_classmethod or not f.params() or f.params()[0] != "self":
                continue
            yield f


def check_assigned(project, tier):
    res = Result()
    cx = Context(project)
    for c in project.all_classes():
        if c.methods.get("__init__") is None or cx.is_open(c):
            continue
        init = c.methods["__init__"]
        res.count("constructors")
        st = cx.stores(c)
        ini = cx.init_only(c)
        lvl = cx.class_level(c)
        ex = cx.own_exits(c, init)
        every = set().union(*[d for _, d in ex]) if ex else set()
        every |= {a for a, by in st.items() if "__init__" in by}
        # what only a base class's constructor leaves open depends on what this class hands it: judged at the base class
        own = {a for m in c.methods.values() if m.name in ini for n in ast.walk(m.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and (a := self_attr(n))}
        every &= own
        missing = {}
        for facts, d in ex:
            for a in every - d - lvl:
                if set(st.get(a, ())) <= ini:
                    missing.setdefault(a, []).append((facts, d))
        res.count("attributes", len(every))
        if not missing:
            continue
        internal = {n.func.attr for f in reader_methods(cx, c) for n in ast.walk(f.node) if isinstance(n, ast.Call) and self_attr(n.func) and n.func.attr != f.name}
        for f in reader_methods(cx, c):
            if f.name in internal:
                continue    # judged where the class calls it
            cand = {a for a in missing if a not in tested(f.node)}
            for a in sorted(cand):
                for facts, d in missing[a]:
                    hit = []
                    r = Reads(f, {a}, lambda n, s: hit.append((n, s)), cx, c)
                    for k in facts:
                        r.deps[k] = {k}
                    r.run(d, dict(facts))
                    res.count("constructor_path_method_pairs")
                    if hit:
                        n, s = hit[0]
                        res.add("attribute-maybe-unassigned", f"{f.relpath}:{c.name}", a,
                                f"{f.qualname} reads self.{a}, which the constructor leaves unassigned on a path" + (f" ({describe(facts)})" if describe(facts) else ""), n.lineno)
                        break
    res.guard("constructors", 200)
    return res


class NullAttr(Null):
    """attributes nothing but the constructor stores keep their value across calls"""

    def after_call(self, call, s):
        t = super().after_call(call, s)
        if t is s:
            return s
        keep = {k: v for k, v in s.facts.items() if k in self.stable}
        return S({**t.facts, **keep}, t.data)


def check_null(project, tier):
    res = Result()
    cx = Context(project)
    for c in project.all_classes():
        init = c.methods.get("__init__")
        if init is None:
            continue
        dfl = init.defaults()
        opt = [p for p, d in dfl.items() if isinstance(d, ast.Constant) and d.value is None and p not in FRAMEWORK_SUPPLIED]
        opt = [p for p in opt if p not in co_supplied(init.node)]
        if not opt:
            continue
        st = cx.stores(c)
        ini = cx.init_only(c)
        ms = list(reader_methods(cx, c))
        always = None    # None whatever the options say: set by someone else later
        for facts, d in cx.own_exits(c, init, {p: ("ne", frozenset({Flow._h(None)})) for p in opt}):
            n = {k for k, v in facts.items() if v == ("eq", None)}
            always = n if always is None else always & n
        for p in opt:
            starts = []
            for facts, d in cx.own_exits(c, init, {p: ("eq", None)}, soft=True):
                nul = {k for k, v in facts.items() if v == ("eq", None)} - (always or set())
                if nul:
                    starts.append((facts, nul, {k for k in nul if not set(st.get(k[5:], ())) <= ini}))
            for allfacts, nul, soft in starts:
                everywhere = nul - soft
                for f in ms:
                    mine = {"self." + a for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and (a := self_attr(n))}
                    mine &= {expr_key(c.left) for c in ast.walk(f.node) if isinstance(c, ast.Compare) and isinstance(c.ops[0], (ast.Is, ast.IsNot))}
                    nul, facts = everywhere | (soft & mine), {k: v for k, v in allfacts.items() if k not in soft - mine}
                    if not any(isinstance(n, ast.Attribute) and "self." + n.attr in nul for n in ast.walk(f.node)):
                        continue
                    local = {t.id: expr_key(n.value) for n in ast.walk(f.node) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute) and expr_key(n.value) in nul
                             for t in n.targets if isinstance(t, ast.Name)}
                    res.count("omitted_option_method_pairs")

                    def report(n, s, how, f=f, nul=nul, local=local):
                        k = expr_key(n)
                        if k not in nul and k not in local:
                            return
                        k = local.get(k, k)
                        res.add("none-attribute-used", f"{f.relpath}:{c.name}", k,
                                f"{f.qualname}: {k} is None when option {p!r} is left out, and is {how}", n.lineno)

                    w = NullAttr(f.node, report, lambda: res.count("uses_checked"), lambda call: [])
                    w.stable = set(facts) - soft
                    for k in facts:
                        w.deps[k] = {k}
                    w.run(None, dict(facts))
    res.guard("omitted_option_method_pairs", 20)
    return res
