"""Whole-program index of /repo/rubin_sim: modules, imports, classes, functions.

Nothing here imports or executes the analysed package; everything is read from
the syntax trees of the current working tree.
"""
import ast
import builtins
import os

from . import normalize

REPO = os.environ.get("RSA_REPO", "/repo")
PKG = "rubin_sim"


class FuncInfo:
    def __init__(self, node, module, cls=None, parent=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.parent = parent
        self.name = getattr(node, "name", "<lambda>")
        decs = getattr(node, "decorator_list", [])
        self.decorators = [ast.unparse(d) for d in decs]
        self.is_static = "staticmethod" in self.decorators
        self.is_classmethod = "classmethod" in self.decorators
        self.is_property = "property" in self.decorators
        self.is_setter = any(d.endswith(".setter") for d in self.decorators)
        self.is_generator = any(
            isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node)
        )

    @property
    def qualname(self):
        if self.cls is not None:
            return f"{self.cls.name}.{self.name}"
        if self.parent is not None:
            return f"{self.parent.qualname}.{self.name}"
        return self.name

    @property
    def relpath(self):
        return self.module.relpath

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def kwonly(self):
        return [x.arg for x in self.node.args.kwonlyargs]

    def all_params(self):
        a = self.node.args
        out = self.params() + self.kwonly()
        if a.vararg:
            out.append(a.vararg.arg)
        if a.kwarg:
            out.append(a.kwarg.arg)
        return out

    def defaults(self):
        """param name -> default AST node"""
        a = self.node.args
        pos = a.posonlyargs + a.args
        out = {}
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            out[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                out[p.arg] = d
        return out

    def __repr__(self):
        return f"<Func {self.module.name}:{self.qualname}>"


class ClassInfo:
    def __init__(self, node, module, parent=None):
        self.node = node
        self.module = module
        self.name = node.name
        self.methods = {}
        self.setters = {}
        self.attrs = {}  # class-level assignments name -> value node
        for st in flat_stmts(node.body):
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(st, module, cls=self)
                if fi.is_setter:
                    self.setters[st.name] = fi
                else:
                    self.methods[st.name] = fi
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if st.value is not None:
                    self.attrs[st.target.id] = st.value
                else:
                    self.attrs.setdefault(st.target.id, None)
        self._mro = None

    @property
    def relpath(self):
        return self.module.relpath

    def __repr__(self):
        return f"<Class {self.module.name}:{self.name}>"


def flat_stmts(body):
    """Statements of a body including those nested in if/try/with (not defs)."""
    for st in body:
        yield st
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        for fld in ("body", "orelse", "finalbody"):
            sub = getattr(st, fld, None)
            if isinstance(sub, list):
                yield from flat_stmts(sub)
        for h in getattr(st, "handlers", []) or []:
            yield from flat_stmts(h.body)


def walk_own(fnode):
    """Walk a function body without descending into nested defs/lambdas/classes."""
    body = fnode.body if isinstance(fnode.body, list) else [fnode.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class ModuleInfo:
    def __init__(self, name, path, relpath, tree, src):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.tree = tree
        self.src = src
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.classes = {}
        self.functions = {}
        self.assigns = {}  # name -> list of value nodes
        self.imports = {}  # name -> ("mod", dotted) | ("from", dotted, attr)
        self.stars = []
        self.all = None
        self._index()

    def _index(self):
        for st in flat_stmts(self.tree.body):
            if isinstance(st, ast.ClassDef):
                self.classes[st.name] = ClassInfo(st, self)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[st.name] = FuncInfo(st, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            self.assigns.setdefault(n.id, []).append(
                                st.value if isinstance(t, ast.Name) else None
                            )
                    if isinstance(t, ast.Name) and t.id == "__all__":
                        try:
                            self.all = list(ast.literal_eval(st.value))
                        except Exception:
                            pass
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.assigns.setdefault(st.target.id, []).append(st.value)
            elif isinstance(st, (ast.For, ast.AsyncFor)):
                for n in ast.walk(st.target):
                    if isinstance(n, ast.Name):
                        self.assigns.setdefault(n.id, []).append(None)
            elif isinstance(st, (ast.With, ast.AsyncWith)):
                for it in st.items:
                    if it.optional_vars is not None:
                        for n in ast.walk(it.optional_vars):
                            if isinstance(n, ast.Name):
                                self.assigns.setdefault(n.id, []).append(None)
            elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
                self.assigns.setdefault(st.target.id, []).append(None)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = ("mod", a.name)
                    else:
                        self.imports[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                base = self.resolve_rel(st.module, st.level)
                for a in st.names:
                    if a.name == "*":
                        self.stars.append(base)
                    else:
                        self.imports[a.asname or a.name] = ("from", base, a.name)

    def resolve_rel(self, module, level):
        if not level:
            return module or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[: len(parts) - (level - 1)]
        if module:
            parts = parts + module.split(".")
        return ".".join(parts)

    def exported(self):
        if self.all is not None:
            return set(self.all)
        return {
            n
            for n in (set(self.classes) | set(self.functions) | set(self.assigns) | set(self.imports))
            if not n.startswith("_")
        }

    def __repr__(self):
        return f"<Module {self.name}>"


class Project:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.parse_errors = []
        root = os.path.join(self.repo, PKG)
        for dp, dn, fn in os.walk(root):
            dn[:] = [d for d in dn if d != "__pycache__"]
            for f in fn:
                if f.endswith(".py"):
                    self._load(os.path.join(dp, f))
        self._res_cache = {}
        normalize.propagate(self)

    def _load(self, path):
        rel = os.path.relpath(path, self.repo)
        name = rel[:-3].replace(os.sep, ".")
        if name.endswith(".__init__"):
            name = name[: -len(".__init__")]
        try:
            src = open(path, encoding="utf-8").read()
            tree = normalize.canonical(ast.parse(src, filename=rel))
        except (SyntaxError, UnicodeDecodeError) as e:
            self.parse_errors.append((rel, str(e)))
            return
        self.modules[name] = ModuleInfo(name, path, rel, tree, src)

    # ---- resolution ---------------------------------------------------
    def resolve(self, module, name, _seen=None):
        """Resolve a global name in a module.

        Returns ("class", ClassInfo) / ("func", FuncInfo) / ("module", ModuleInfo)
        / ("ext", dotted) / ("assign", ModuleInfo, name) / ("builtin", name) / None
        """
        key = (module.name, name)
        if key in self._res_cache:
            return self._res_cache[key]
        _seen = _seen or set()
        if key in _seen:
            return None
        _seen = _seen | {key}
        r = self._resolve(module, name, _seen)
        self._res_cache[key] = r
        return r

    def _resolve(self, module, name, seen):
        if name in module.classes:
            return ("class", module.classes[name])
        if name in module.functions:
            return ("func", module.functions[name])
        if name in module.assigns:
            return ("assign", module, name)
        if name in module.imports:
            imp = module.imports[name]
            if imp[0] == "mod":
                return self.resolve_module(imp[1])
            base, attr = imp[1], imp[2]
            if base in self.modules:
                r = self.member(self.modules[base], attr, seen)
                if r is not None:
                    return r
            sub = f"{base}.{attr}"
            if sub in self.modules:
                return ("module", self.modules[sub])
            if base.split(".")[0] == PKG and base in self.modules:
                return None
            return ("ext", sub)
        if module.is_pkg:
            sub = f"{module.name}.{name}"
            if sub in self.modules:
                r = None
                for s in module.stars:
                    pass
                if not any(self._star_has(s, name, seen) for s in module.stars):
                    return ("module", self.modules[sub])
        for s in reversed(module.stars):
            if s in self.modules:
                m = self.modules[s]
                if self._star_has(s, name, seen):
                    r = self.member(m, name, seen)
                    if r is not None:
                        return r
            elif s.split(".")[0] != PKG:
                # external star import: anything could come from it
                if name not in dir(builtins):
                    return ("ext", f"{s}.{name}")
        if name in dir(builtins) or name in ("__file__", "__name__", "__doc__", "__path__", "__spec__"):
            return ("builtin", name)
        return None

    def _star_has(self, s, name, seen):
        if s not in self.modules:
            return False
        m = self.modules[s]
        if m.all is not None:
            return name in m.all
        if name.startswith("_"):
            return False
        return self.member(m, name, seen) is not None

    def member(self, module, attr, seen=None):
        r = self.resolve(module, attr, seen)
        if r is not None and r[0] == "builtin":
            return None
        return r

    def resolve_module(self, dotted):
        if dotted in self.modules:
            return ("module", self.modules[dotted])
        return ("ext", dotted)

    def dotted(self, module, node):
        """Resolve Name/Attribute chain statically (module-level view)."""
        if isinstance(node, ast.Name):
            return self.resolve(module, node.id)
        if isinstance(node, ast.Attribute):
            b = self.dotted(module, node.value)
            if b is None:
                return None
            if b[0] == "module":
                r = self.member(b[1], node.attr)
                if r is None:
                    sub = f"{b[1].name}.{node.attr}"
                    if sub in self.modules:
                        return ("module", self.modules[sub])
                return r
            if b[0] == "ext":
                return ("ext", f"{b[1]}.{node.attr}")
            if b[0] == "class":
                m = self.find_method(b[1], node.attr)
                if m:
                    return ("func", m)
        return None

    # ---- classes ------------------------------------------------------
    def mro(self, cls):
        if cls._mro is None:
            cls._mro = self._c3(cls, ())
        return cls._mro

    def bases(self, cls):
        out = []
        for b in cls.node.bases:
            r = self.dotted(cls.module, b)
            if r is not None and r[0] == "class":
                out.append(r[1])
        return out

    def ext_bases(self, cls):
        """Dotted names of bases (transitively) that are outside the project."""
        out = []
        for c in self.mro(cls):
            for b in c.node.bases:
                r = self.dotted(c.module, b)
                if r is None or r[0] != "class":
                    out.append(r[1] if r is not None and r[0] == "ext" else ast.unparse(b))
        return [b for b in out if b != "object"]

    def _c3(self, cls, stack):
        if cls in stack:
            return [cls]
        seqs = [list(self._c3(b, stack + (cls,))) for b in self.bases(cls)]
        seqs.append(list(self.bases(cls)))
        out = [cls]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                c = s[0]
                if not any(c in o[1:] for o in seqs):
                    break
            else:
                c = seqs[0][0]
            out.append(c)
            for s in seqs:
                if s[0] is c:
                    del s[0]

    def find_method(self, cls, name):
        for c in self.mro(cls):
            if name in c.methods:
                return c.methods[name]
        return None

    def find_method_after(self, cls, after, name):
        m = self.mro(cls)
        if after in m:
            m = m[m.index(after) + 1:]
        for c in m:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_class_attr(self, cls, name):
        for c in self.mro(cls):
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def is_subclass(self, cls, base):
        return base in self.mro(cls)

    def all_classes(self):
        for m in self.modules.values():
            yield from m.classes.values()

    def all_functions(self):
        """Every function and method (not nested)."""
        for m in self.modules.values():
            yield from m.functions.values()
            for c in m.classes.values():
                yield from c.methods.values()
                yield from c.setters.values()

    def subclasses(self, base, include=False):
        return [c for c in self.all_classes() if self.is_subclass(c, base) and (include or c is not base)]

    def get_class(self, modname, name):
        m = self.modules.get(modname)
        if m is None:
            return None
        r = self.resolve(m, name)
        if r and r[0] == "class":
            return r[1]
        return None

    def class_named(self, name):
        return [c for c in self.all_classes() if c.name == name]
