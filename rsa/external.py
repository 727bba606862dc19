"""What the libraries the package imports define, read from their installed sources and stubs (nothing is imported).

Every answer is three-valued: a member that exists, a member that certainly does not exist (None), or OPEN when the
module fills its namespace dynamically, is a compiled extension without a stub, or is not installed.
"""
import ast
import glob
import os

from .project import flat_stmts

OPEN = ("open",)
VENV = os.environ.get("RSA_VENV", "/opt/venv")
KEEPING = {"staticmethod", "classmethod", "overload", "deprecated", "xp_capabilities", "lru_cache", "cache", "quantity_input",
           "set_module", "doc", "Appender", "Substitution", "interpd", "_copy_docstring_and_deprecators", "copy",
           "deprecated_renamed_argument", "abstractmethod", "final", "inherit_names", "contextmanager", "wraps",
           "skip_nan", "deprecate_kwarg", "deprecate_nonkeyword_arguments", "override", "finalize_array_function_like"}


def roots():
    out = sorted(glob.glob(os.path.join(VENV, "lib", "python3.*", "site-packages")))
    ver = [os.path.basename(os.path.dirname(p)) for p in out]
    for v in ver:
        for b in ("/usr/lib", "/usr/local/lib"):
            if os.path.isdir(os.path.join(b, v)):
                out.append(os.path.join(b, v))
    return out


class EModule:
    def __init__(self, name, path, is_pkg, tree):
        self.name, self.path, self.is_pkg, self.tree = name, path, is_pkg, tree
        self.defs = {}  # name -> list of nodes
        self.imports = {}
        self.stars = []
        self.open = False
        self.all = None
        for st in flat_stmts(tree.body):
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.defs.setdefault(st.name, []).append(st)
                if st.name == "__getattr__":
                    self.open = True
            elif isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.For, ast.With)):
                tg = st.targets if isinstance(st, ast.Assign) else [st.target] if not isinstance(st, ast.With) else [
                    i.optional_vars for i in st.items if i.optional_vars is not None]
                for t in tg:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            self.defs.setdefault(x.id, []).append(st)
                            if x.id == "__all__" and isinstance(st, ast.Assign):
                                try:
                                    self.all = list(ast.literal_eval(st.value))
                                except Exception:
                                    self.all = None
                            elif x.id == "__all__":
                                self.all = None
            elif isinstance(st, ast.Import):
                for a in st.names:
                    self.imports[a.asname or a.name.split(".")[0]] = ("mod", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                base = self.rel(st.module, st.level)
                for a in st.names:
                    if a.name == "*":
                        self.stars.append(base)
                    else:
                        self.imports[a.asname or a.name] = ("from", base, a.name)
            elif type(st).__name__ == "TypeAlias":
                self.defs.setdefault(st.name.id, []).append(st)
            for x in ast.walk(st) if not isinstance(st, (ast.If, ast.Try, ast.For, ast.With)) else ():
                if isinstance(x, ast.NamedExpr):
                    self.defs.setdefault(x.target.id, []).append(st)
        for n in ast.walk(tree):
            if isinstance(n, ast.Global):
                for x in n.names:
                    self.defs.setdefault(x, []).append(n)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("globals", "vars", "locals", "exec", "setattr") \
                    and (n.func.id in ("globals", "exec") or n.func.id in ("vars", "locals") and not n.args
                         or n.func.id == "setattr" and n.args and "modules" in ast.unparse(n.args[0])):
                if n.func.id in ("vars", "locals"):
                    if self.module_level(n):
                        self.open = True
                else:
                    self.open = True
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and ast.unparse(n.value) == "sys.modules":
                self.open = True
            elif isinstance(n, (ast.Name, ast.Attribute)) and (n.id if isinstance(n, ast.Name) else n.attr) in (
                    "extend_path", "getmodule", "find_current_module", "import_module", "__import__"):
                self.open = True

    def module_level(self, call):
        for st in self.tree.body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                continue
            if any(x is call for x in ast.walk(st)):
                return True
        return False

    def rel(self, module, level):
        if not level:
            return module or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[: len(parts) - (level - 1)]
        return ".".join(parts + (module.split(".") if module else []))


class EClass:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.methods = {}
        self.attrs = set()
        self.open = bool(node.keywords) and any(k.arg == "metaclass" and not ast.unparse(k.value).endswith("ABCMeta")
                                                for k in node.keywords)
        for d in node.decorator_list:
            self.open = self.open or ast.unparse(d).split("(")[0].split(".")[-1] not in ("final", "total_ordering", "set_module", "deprecated")
        for st in flat_stmts(node.body):
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods.setdefault(st.name, []).append(st)
            elif isinstance(st, ast.ClassDef):
                self.attrs.add(st.name)
            elif isinstance(st, (ast.Assign, ast.AnnAssign, ast.For, ast.With, ast.Import, ast.ImportFrom, ast.AugAssign)):
                for x in ast.walk(st):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        self.attrs.add(x.id)
                    elif isinstance(x, ast.alias):
                        self.attrs.add((x.asname or x.name).split(".")[0])
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
                self.open = True
        for ms in self.methods.values():
            for f in ms:
                for x in ast.walk(f):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        self.attrs.add(x.attr)
                    elif isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id in ("setattr", "vars")
                                                      or isinstance(x.func, ast.Attribute) and x.func.attr in ("__setattr__", "setattr")
                                                      or isinstance(x.func, ast.Attribute) and ast.unparse(x.func.value).endswith("__dict__")):
                        self.open = True
        if "__getattr__" in self.methods or "__getattribute__" in self.methods or "__slots__" in self.attrs:
            self.open = True


class BClass:
    """A class of the interpreter itself."""

    def __init__(self, name):
        import builtins
        b = getattr(builtins, name)
        self.name, self.node, self.module = name, ast.ClassDef(name=name, bases=[], keywords=[], body=[], decorator_list=[]), EModule("builtins", "builtins.pyi", False, ast.parse(""))
        self.methods, self.attrs, self.open = {}, set(dir(b)), False


class External:
    def __init__(self):
        self.roots = roots()
        self.mods = {}
        self.classes = {}
        self.cache = {}
        self.bclasses = {}

    def find(self, dotted):
        parts = dotted.split(".")
        for r in self.roots:
            b = os.path.join(r, *parts)
            for p, pk in ((os.path.join(b, "__init__.pyi"), True), (os.path.join(b, "__init__.py"), True), (b + ".pyi", False), (b + ".py", False)):
                if os.path.isfile(p):
                    return p, pk
        return None

    def exists(self, dotted):
        """a module of this name is installed, in whatever form"""
        if self.find(dotted):
            return True
        parts = dotted.split(".")
        return any(os.path.isdir(os.path.join(r, *parts)) or glob.glob(os.path.join(r, *parts) + ".*.so") for r in self.roots)

    def module(self, dotted):
        if dotted not in self.mods:
            self.mods[dotted] = None
            f = self.find(dotted)
            if f is not None:
                try:
                    tree = ast.parse(open(f[0], encoding="utf-8").read())
                    self.mods[dotted] = EModule(dotted, f[0], f[1], tree)
                except (SyntaxError, UnicodeDecodeError, ValueError):
                    pass
        return self.mods[dotted]

    def eclass(self, node, module):
        k = id(node)
        if k not in self.classes:
            self.classes[k] = EClass(node, module)
        return self.classes[k]

    def member(self, m, name, seen=()):
        """-> None (certainly absent), OPEN, ("module", dotted), ("func", nodes, m), ("class", EClass), ("value", st, m)"""
        if (m.name, name) in seen:
            return None
        key = (m.name, name)
        if key in self.cache:
            return self.cache[key]
        r = self._member(m, name, seen + ((m.name, name),))
        self.cache[key] = r
        return r

    def _member(self, m, name, seen):
        if name in ("__file__", "__name__", "__doc__", "__path__", "__spec__", "__package__", "__version__", "__dict__"):
            return OPEN
        if name in m.defs:
            ds = m.defs[name]
            if name in m.imports:
                return OPEN
            if all(isinstance(d, (ast.FunctionDef, ast.AsyncFunctionDef)) for d in ds):
                return ("func", ds, m)
            if len(ds) == 1 and isinstance(ds[0], ast.ClassDef):
                return ("class", self.eclass(ds[0], m))
            if len(ds) == 1 and isinstance(ds[0], ast.Assign) and len(ds[0].targets) == 1 and isinstance(ds[0].targets[0], ast.Name):
                r = self.expr(m, ds[0].value, seen)
                if r is not None and r[0] in ("func", "class", "module"):
                    return r
            return ("value", ds[-1], m)
        if name in m.imports:
            imp = m.imports[name]
            if imp[0] == "mod":
                return self.modref(imp[1])
            b = self.module(imp[1])
            if b is not None:
                r = self.member(b, imp[2], seen)
                if r is not None and r is not OPEN:
                    return r
                if r is None and not self.exists(f"{imp[1]}.{imp[2]}"):
                    return OPEN
            if self.exists(f"{imp[1]}.{imp[2]}"):
                return self.modref(f"{imp[1]}.{imp[2]}")
            return OPEN
        opn = m.open
        for s in m.stars:
            b = self.module(s)
            if b is None:
                opn = True
                continue
            if b.all is not None:
                if name in b.all:
                    r = self.member(b, name, seen)
                    return OPEN if r is None else r
                if not b.open and not b.stars:
                    continue
            r = self.member(b, name, seen)
            if r is OPEN:
                opn = True
            elif r is not None:
                return r
        if m.is_pkg and self.exists(f"{m.name}.{name}"):
            return self.modref(f"{m.name}.{name}")
        if name.startswith("_") and m.path.endswith(".pyi"):
            return OPEN  # stubs leave out private names
        return OPEN if opn else None

    def modref(self, dotted):
        return ("module", dotted) if self.module(dotted) is not None else OPEN

    def expr(self, m, node, seen=()):
        if isinstance(node, ast.Name):
            return self.member(m, node.id, seen)
        if isinstance(node, ast.Attribute):
            b = self.expr(m, node.value, seen)
            if b is None or b[0] != "module":
                return None
            return self.member(self.module(b[1]), node.attr, seen)
        return None

    def lookup(self, dotted):
        """(what, missing): the object a dotted library name denotes; missing = the part that certainly does not exist"""
        parts = dotted.split(".")
        if not self.exists(parts[0]):
            return OPEN, None
        cur = self.modref(parts[0])
        for i, p in enumerate(parts[1:], 1):
            if cur is OPEN or cur is None:
                sub = ".".join(parts[: i + 1])
                if self.find(sub) and self.find(".".join(parts[:i])):
                    cur = self.modref(sub)
                    continue
                return OPEN, None
            if cur[0] == "module":
                nxt = self.member(self.module(cur[1]), p)
                if nxt is None:
                    return None, (cur[1], p)
                if nxt is OPEN and self.find(f"{cur[1]}.{p}"):
                    nxt = self.modref(f"{cur[1]}.{p}")
                cur = nxt
            elif cur[0] == "class":
                c = cur[1]
                if i != len(parts) - 1:
                    return OPEN, None
                mro = self.mro(c)
                for k in mro or ():
                    if p in k.methods:
                        return ("method", k.methods[p], k, c), None
                    if p in k.attrs:
                        return OPEN, None
                if p.startswith("_") and any(k.module.path.endswith(".pyi") for k in mro or ()):
                    return OPEN, None
                if mro is None or any(k.open for k in mro) or hasattr(type, p) or hasattr(object, p):
                    return OPEN, None
                return None, (f"class {c.module.name}.{c.name}", p)
            else:
                return OPEN, None
        return cur, None

    # ---- classes
    def builtin(self, name):
        import builtins
        if not isinstance(getattr(builtins, name, None), type):
            return None
        if name not in self.bclasses:
            self.bclasses[name] = BClass(name)
        return self.bclasses[name]

    def mro(self, c, stack=()):
        """list of EClass, or None when a base cannot be resolved"""
        if c in stack:
            return None
        out = [c]
        for b in c.node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            nm = ast.unparse(b).split(".")[-1]
            if nm in ("object", "ABC", "Generic", "Protocol"):
                continue
            r = self.expr(c.module, b)
            if (r is None or r is OPEN) and isinstance(b, ast.Name):
                k = self.builtin(b.id)
                if k is not None:
                    out += [k] if k not in out else []
                    continue
            if r is None or r[0] != "class":
                return None
            s = self.mro(r[1], stack + (c,))
            if s is None:
                return None
            out += [x for x in s if x not in out]
        return out

    def find_method(self, c, name):
        """-> (nodes, owner) | None (no such method) | OPEN"""
        mro = self.mro(c)
        if mro is None:
            # methods of the class itself come first whatever the bases are
            return (c.methods[name], c) if name in c.methods else OPEN
        for k in mro:
            if name in k.methods:
                return k.methods[name], k
            if name in k.attrs:
                return None if isinstance(k, BClass) and name == "__new__" else OPEN
        return OPEN if any(k.open for k in mro) and name not in ("__new__", "__init__") else None


class ESig:
    def __init__(self, node, bound, stub=False):
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        npo = len(a.posonlyargs)
        dfl = set(pos[len(pos) - len(a.defaults):]) if a.defaults else set()
        dfl |= {p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        if bound and pos:
            pos = pos[1:]
            npo = max(0, npo - 1)
        # stubs written before positional-only syntax
        self.pos = pos
        self.posonly = set(pos[:npo]) | {p for p in pos if p.startswith("__") and not p.endswith("__")}
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.required = [p for p in pos + self.kwonly if p not in dfl]
        self.varargs, self.open = bool(a.vararg), bool(a.kwarg)
        # overloads of a stub ask for keywords where the compiled function also takes positions
        self.maxpos = len(pos) + (len(self.kwonly) if stub else 0)

    def reject(self, call):
        """why a call certainly does not fit, or None"""
        star = any(isinstance(x, ast.Starred) for x in call.args)
        dstar = any(k.arg is None for k in call.keywords)
        n = len(call.args)
        if not star and not self.varargs and n > self.maxpos:
            return f"passes {n} positional arguments, where at most {self.maxpos} are taken"
        for k in call.keywords:
            if k.arg is None:
                continue
            if not self.open and (k.arg not in self.pos and k.arg not in self.kwonly or k.arg in self.posonly):
                return f"passes keyword {k.arg!r}, which is not accepted"
            if not star and k.arg in self.pos[:n] and k.arg not in self.posonly:
                return f"passes {k.arg!r} twice"
        if not star and not dstar:
            given = set(self.pos[:n]) | {k.arg for k in call.keywords}
            miss = [p for p in self.required if p not in given]
            if miss:
                return f"leaves out required argument(s) {', '.join(miss)}"
        return None


def deco_names(f):
    return [ast.unparse(d).split("(")[0].split(".")[-1] for d in f.decorator_list]


def sigs(nodes, bound):
    """signatures a call may match; None when a decorator may change the signature"""
    if any(d not in KEEPING for f in nodes for d in deco_names(f)):
        return None
    use = nodes
    if any("overload" in deco_names(f) for f in nodes):
        use = nodes
    elif len(nodes) > 1:
        use = nodes  # alternative definitions: any may be in force
    out = []
    for f in use:
        b = bound
        if "staticmethod" in deco_names(f):
            b = False
        elif "classmethod" in deco_names(f):
            b = True
        out.append(ESig(f, b, stub=len(use) > 1))
    return out


def rejected(nodes, bound, call):
    ss = sigs(nodes, bound)
    if not ss:
        return None
    why = [s.reject(call) for s in ss]
    if any(w is None for w in why):
        return None
    return why[-1]


_EXT = None


def external():
    global _EXT
    if _EXT is None:
        _EXT = External()
    return _EXT
