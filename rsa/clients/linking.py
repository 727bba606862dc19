"""Whole-program linking: names, attributes, imports, exports and call signatures resolve on every path."""
import ast
import builtins
import symtable

from ..core import Result, where
from ..project import ClassInfo, FuncInfo, walk_own
from ..util import short

MODULE_DUNDERS = {"__file__", "__name__", "__doc__", "__path__", "__spec__", "__package__", "__loader__", "__class__",
                  "__builtins__", "__version__", "__annotations__", "__module__", "__qualname__", "__dict__"}


NP_INDEXABLE = {"r_", "c_", "s_", "mgrid", "ogrid", "index_exp", "ndarray", "dtype", "sctypes", "typecodes"}


def in_scope(m):
    return not m.relpath.endswith("create_gaia_density_map.py")


# ------------------------------------------------------------------ names
def check_names(project, tier):
    res = Result()
    for m in project.modules.values():
        try:
            top = symtable.symtable(m.src, m.relpath, "exec")
        except SyntaxError:
            continue
        lines = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                lines.setdefault(n.id, n.lineno)
        globs = set()

        def collect_global_stmts(t):
            for s in t.get_symbols():
                if s.is_declared_global() and s.is_assigned():
                    globs.add(s.get_name())
            for c in t.get_children():
                collect_global_stmts(c)

        collect_global_stmts(top)
        open_star = any(s.split(".")[0] != "rubin_sim" for s in m.stars)
        annonly = annotation_names(m) if any(
            isinstance(s, ast.ImportFrom) and s.module == "__future__" for s in m.tree.body) else set()

        def visit(t, qual):
            for s in t.get_symbols():
                nm = s.get_name()
                if not s.is_referenced():
                    continue
                res.count("name_references")
                if t.get_type() == "module":
                    if s.is_assigned() or s.is_imported() or s.is_namespace():
                        continue
                elif not s.is_global():
                    continue
                if nm in globs or hasattr(builtins, nm) or nm in MODULE_DUNDERS:
                    continue
                if project.resolve(m, nm) is not None or open_star or nm in annonly:
                    continue
                res.add("undefined-name", f"{m.relpath}:{qual or '<module>'}", nm,
                        f"name {nm!r} is not defined in any enclosing scope", lines.get(nm))
            for c in t.get_children():
                q = (qual + "." if qual else "") + c.get_name()
                visit(c, q)

        visit(top, "")
        # exports
        for nm in m.all or []:
            res.count("exports")
            if project.resolve(m, nm) is None or project.resolve(m, nm)[0] == "builtin":
                res.add("export-missing", f"{m.relpath}:<module>", nm, f"__all__ lists {nm!r}, which the module does not define")
        # project imports
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                base = m.resolve_rel(n.module, n.level)
                if base.split(".")[0] != "rubin_sim":
                    continue
                for a in n.names:
                    res.count("project_imports")
                    if base not in project.modules:
                        if base == "rubin_sim.version":
                            continue
                        res.add("import-missing", f"{m.relpath}:<module>", base, f"imports from {base}, which does not exist",
                                n.lineno)
                    elif a.name != "*" and project.member(project.modules[base], a.name) is None and f"{base}.{a.name}" not in project.modules:
                        if base == "rubin_sim" and a.name in ("version",):
                            continue
                        res.add("import-missing", f"{m.relpath}:<module>", f"{base}.{a.name}",
                                f"imports {a.name} from {base}, which does not define it", n.lineno)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                # module attributes (only when the base is certainly a module: not shadowed locally)
                b = n.value
                if isinstance(b, ast.Name) and b.id in m.imports and not shadowed(m, b):
                    r = project.dotted(m, b)
                    if r is not None and r[0] == "module":
                        res.count("module_attribute_reads")
                        if project.member(r[1], n.attr) is None and f"{r[1].name}.{n.attr}" not in project.modules and n.attr not in MODULE_DUNDERS:
                            if r[1].name == "rubin_sim" or has_open_star(project, r[1]):
                                continue
                            res.add("module-attribute-missing", f"{m.relpath}:{enclosing(m, n)}", f"{b.id}.{n.attr}",
                                    f"{r[1].name} has no member {n.attr!r}", n.lineno)
    for m in project.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name) \
                    and n.value.value.id in ("np", "numpy") and n.value.attr.islower() and n.value.attr not in NP_INDEXABLE:
                res.add("library-function-indexed", f"{m.relpath}:<module>", ast.unparse(n.value),
                        f"{ast.unparse(n)!r} indexes a library function instead of calling it", n.lineno)
    res.guard("name_references", 5000)
    return res


def has_open_star(project, m, seen=()):
    for s in m.stars:
        if s not in project.modules:
            return True
        if s not in seen and has_open_star(project, project.modules[s], seen + (s,)):
            return True
    return False


def annotation_names(m):
    out = set()
    for n in ast.walk(m.tree):
        anns = []
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            anns = [a.annotation for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs] + [n.returns]
        elif isinstance(n, ast.AnnAssign):
            anns = [n.annotation]
        for a in anns:
            if a is not None:
                out |= {x.id for x in ast.walk(a) if isinstance(x, ast.Name)}
    return out


_ENC = {}


def scopes(m):
    r = _ENC.get(m.name)
    if r is None or r[1] is not m.tree:
        mp = {}

        def go(n, stack):
            for c in ast.iter_child_nodes(n):
                mp[id(c)] = stack
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                    go(c, stack + (c,))
                else:
                    go(c, stack)

        go(m.tree, ())
        r = (mp, m.tree, {})
        _ENC[m.name] = r
    return r


def enclosing(m, node):
    st = scopes(m)[0].get(id(node), ())
    return ".".join(getattr(s, "name", "<lambda>") for s in st) or "<module>"


def local_names(fn):
    out = set()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x:
            out.add(x.arg)
    for n in walk_own(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add((al.asname or al.name).split(".")[0])
    return out


def shadowed(m, name_node):
    mp, _, cache = scopes(m)
    for s in mp.get(id(name_node), ()):
        if isinstance(s, ast.ClassDef):
            continue
        k = id(s)
        if k not in cache:
            cache[k] = local_names(s)
        if name_node.id in cache[k]:
            return True
    return False


# ------------------------------------------------------------------ attributes of self
OBJECT_ATTRS = set(dir(object)) | {"__dict__", "__name__", "__module__", "__weakref__", "__annotations__", "__doc__",
                                   "__qualname__", "__slots__", "__mro__", "__bases__"}


def class_info(project):
    """per class: names defined (own), and 'open' flag"""
    own = {}
    for c in project.all_classes():
        names = set(c.methods) | set(c.setters) | set(c.attrs)
        opn = "__getattr__" in c.methods or "__getattribute__" in c.methods
        for st in c.node.body:
            if isinstance(st, ast.ClassDef):
                names.add(st.name)
        for f in list(c.methods.values()) + list(c.setters.values()):
            ps = f.params()
            if not ps or f.is_static:
                continue
            me = ps[0]
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store,)) and isinstance(n.value, ast.Name) and n.value.id == me:
                    names.add(n.attr)
                elif isinstance(n, ast.Call):
                    if isinstance(n.func, ast.Name) and n.func.id == "setattr" and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == me:
                        if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                            names.add(n.args[1].value)
                        else:
                            opn = True
                    elif isinstance(n.func, ast.Attribute) and n.func.attr == "update" and ast.unparse(n.func.value).endswith("__dict__"):
                        opn = True
        # metaclass attributes
        for kw in c.node.keywords:
            if kw.arg == "metaclass":
                r = project.dotted(c.module, kw.value)
                if r and r[0] == "class":
                    names |= set(r[1].methods)
                    for f in r[1].methods.values():
                        ps = f.params()
                        for n in ast.walk(f.node):
                            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and ps and n.value.id == ps[0]:
                                names.add(n.attr)
        own[c] = (names, opn)
    return own


def check_self_attrs(project, tier):
    res = Result()
    own = class_info(project)
    subs = {}
    for c in own:
        for b in project.mro(c):
            subs.setdefault(b, []).append(c)
    outside = set()
    for m in project.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (
                isinstance(n.value, ast.Name) and n.value.id in ("self", "cls")):
                outside.add(n.attr)
    for c in own:
        ext = [b for b in project.ext_bases(c) if b not in ("builtins.object", "ABC", "abc.ABC", "Exception")]
        if ext:
            res.count("classes_with_external_bases")
            continue
        names, opn = set(), False
        fam = set(project.mro(c))
        for s in subs.get(c, []):
            fam |= set(project.mro(s))
        for b in fam:
            n, o = own[b]
            names |= n
            opn = opn or o
        if opn:
            res.count("open_classes")
            continue
        res.count("classes")
        for f in list(c.methods.values()) + list(c.setters.values()):
            ps = f.params()
            if not ps or f.is_static:
                continue
            me = ps[0]
            if any(isinstance(n, ast.Name) and n.id == me and isinstance(n.ctx, ast.Store) for n in walk_own(f.node)):
                continue
            guarded = set()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr") and len(n.args) >= 2 and isinstance(n.args[1], ast.Constant):
                    guarded.add(n.args[1].value)
                if isinstance(n, ast.Try) and any(h.type is None or "AttributeError" in ast.unparse(h.type) for h in n.handlers):
                    for x in n.body:
                        for y in ast.walk(x):
                            if isinstance(y, ast.Attribute):
                                guarded.add(y.attr)
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == me:
                    res.count("self_attribute_reads")
                    a = n.attr
                    if a in names or a in OBJECT_ATTRS or a in guarded or a in outside:
                        continue
                    res.add("attribute-never-defined", where(f), f"{me}.{a}",
                            f"reads attribute {a!r}, which no class in the hierarchy of {c.name} ever defines", n.lineno)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "super" and not n.value.args:
                    res.count("super_reads")
                    mro = project.mro(c)
                    found = any(n.attr in own[b][0] for b in mro[1:]) or n.attr in OBJECT_ATTRS
                    if not found:
                        res.add("attribute-never-defined", where(f), f"super().{n.attr}",
                                f"super() of {c.name} has no attribute {n.attr!r}", n.lineno)
    res.guard("self_attribute_reads", 3000)
    return res


# ------------------------------------------------------------------ call signatures
class Sig:
    def __init__(self, names, required, posonly_max, kwargs_open, varargs):
        self.names, self.required, self.maxpos, self.open, self.varargs = names, required, posonly_max, kwargs_open, varargs


def fsig(project, f, bound, seen=()):
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if bound and pos:
        pos = pos[1:]
    names = set(pos) | {x.arg for x in a.kwonlyargs}
    dfl = f.defaults()
    required = [p for p in pos + [x.arg for x in a.kwonlyargs] if p not in dfl]
    opn = False
    if a.kwarg:
        extra = kwarg_names(project, f, a.kwarg.arg, seen + (f,))
        if extra is None:
            opn = True
        else:
            names |= extra
    return Sig(names, required, None if a.vararg else len(pos), opn, bool(a.vararg)), pos


def kwarg_names(project, f, kw, seen):
    """keywords accepted through **kw by f; None when anything is accepted"""
    names = set()
    forwarded = False
    ok_nodes = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg is None and isinstance(k.value, ast.Name) and k.value.id == kw:
                    ok_nodes.add(id(k.value))
                    forwarded = True
                    tgt = call_target(project, f, n)
                    if tgt is None:
                        return None
                    g, bound = tgt
                    if g in seen:
                        return None
                    s, pos = fsig(project, g, bound, seen)
                    if s.open:
                        return None
                    given = {x.arg for x in n.keywords if x.arg} | set(pos[: len(n.args)])
                    names |= (s.names - given)
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == kw:
                if n.func.attr in ("pop", "get", "setdefault") and n.args and isinstance(n.args[0], ast.Constant):
                    names.add(n.args[0].value)
                    ok_nodes.add(id(n.func.value))
                elif n.func.attr in ("keys", "copy"):
                    return None
        elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == kw:
            if isinstance(n.slice, ast.Constant):
                if not isinstance(n.ctx, ast.Store):
                    names.add(n.slice.value)
                ok_nodes.add(id(n.value))
        elif isinstance(n, ast.Compare) and len(n.comparators) == 1 and isinstance(n.comparators[0], ast.Name) and n.comparators[0].id == kw:
            ok_nodes.add(id(n.comparators[0]))
            if isinstance(n.left, ast.Constant):
                names.add(n.left.value)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Name) and n.id == kw and id(n) not in ok_nodes:
            return None
    if not forwarded and not names:
        return None  # silently ignores everything
    if not forwarded:
        return None
    return names


def local_types(project, f):
    """variables of f assigned exactly once, from a project class constructor"""
    r = getattr(f, "_ltypes", None)
    if r is not None:
        return r
    cnt, typ = {}, {}
    for x in f.all_params():
        cnt[x] = 2
    for n in walk_own(f.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            cnt[n.id] = cnt.get(n.id, 0) + 1
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call):
            if not (isinstance(n.value.func, ast.Name) and shadowed(f.module, n.value.func)):
                t = project.dotted(f.module, n.value.func)
                if t and t[0] == "class":
                    typ.setdefault(n.targets[0].id, []).append(t[1])
    # same class at every assignment
    out = {}
    for k, v in typ.items():
        if cnt.get(k, 0) == len(v) and len(set(v)) == 1:
            out[k] = v[0]
    f._ltypes = out
    return out


def attr_types(project, c):
    """self attributes always assigned from one project class constructor"""
    r = getattr(c, "_atypes", None)
    if r is not None:
        return r
    typ, bad = {}, set()
    for b in project.mro(c):
        for f in list(b.methods.values()) + list(b.setters.values()):
            ps = f.params()
            if not ps:
                continue
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For, ast.With)):
                    tg = n.targets if isinstance(n, ast.Assign) else [getattr(n, "target", None)]
                    for t in tg:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == ps[0]:
                            v = getattr(n, "value", None)
                            r = project.dotted(b.module, v.func) if isinstance(v, ast.Call) and isinstance(n, ast.Assign) else None
                            if r and r[0] == "class":
                                typ.setdefault(t.attr, set()).add(r[1])
                            else:
                                bad.add(t.attr)
                        elif isinstance(t, (ast.Tuple, ast.List)):
                            for x in ast.walk(t):
                                if isinstance(x, ast.Attribute):
                                    bad.add(x.attr)
    out = {k: next(iter(v)) for k, v in typ.items() if len(v) == 1 and k not in bad}
    c._atypes = out
    return out


def call_target(project, f, call):
    """-> (FuncInfo, bound) for calls that certainly reach a project function, else None"""
    fn = call.func
    m = f.module
    if isinstance(fn, ast.Name):
        if shadowed(m, fn):
            return None
        r = project.resolve(m, fn.id)
        return target_of(project, r)
    if isinstance(fn, ast.Attribute):
        b = fn.value
        if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "super" and f.cls is not None:
            g = project.find_method_after(f.cls, f.cls, fn.attr)
            # inheritance may be extended, but the static MRO decides for this class
            return (g, not g.is_static) if g is not None else None
        if isinstance(b, ast.Name):
            if f.cls is not None and not f.is_static and f.params() and b.id == f.params()[0] and not f.is_classmethod:
                g = project.find_method(f.cls, fn.attr)
                if g is None or g.is_property:
                    return None
                over = [s for s in project.subclasses(f.cls) if fn.attr in s.methods]
                if over:
                    return None
                if any(d not in ("staticmethod", "classmethod") for d in g.decorators):
                    return None
                return (g, not g.is_static)
            if shadowed(m, b):
                t = local_types(project, f).get(b.id)
                if t is not None:
                    g = project.find_method(t, fn.attr)
                    if g is not None and not g.is_property and not [d for d in g.decorators if d not in ("staticmethod", "classmethod")]:
                        return (g, not g.is_static)
                return None
        if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and f.cls is not None and f.params() and b.value.id == f.params()[0]:
            t = attr_types(project, f.cls).get(b.attr)
            if t is not None:
                g = project.find_method(t, fn.attr)
                if g is not None and not g.is_property and not [d for d in g.decorators if d not in ("staticmethod", "classmethod")]:
                    return (g, not g.is_static)
            return None
        root = b
        while isinstance(root, ast.Attribute):
            root = root.value
        if isinstance(root, ast.Name) and not shadowed(m, root):
            rb = project.dotted(m, b)
            if rb is None:
                return None
            if rb[0] == "module":
                return target_of(project, project.dotted(m, fn))
            if rb[0] == "class":
                g = project.find_method(rb[1], fn.attr)
                if g is not None and not [d for d in g.decorators if d not in ("staticmethod", "classmethod")]:
                    return (g, g.is_classmethod)
    return None


def target_of(project, r):
    if r is None:
        return None
    if r[0] == "func":
        if any(d.split("(")[0].split(".")[-1] not in ("staticmethod", "classmethod") for d in r[1].decorators):
            return None
        return (r[1], False)
    if r[0] == "class":
        c = r[1]
        if any("dataclass" in ast.unparse(d) for d in c.node.decorator_list):
            return None
        for b in project.mro(c):
            if "__new__" in b.methods or "__call__" in b.methods and b.name.endswith("Meta"):
                return None
        init = project.find_method(c, "__init__")
        if init is None:
            return None
        return (init, True)
    return None


def check_calls(project, tier):
    res = Result()
    for m in project.modules.values():
        funcs = []
        for f in list(m.functions.values()):
            funcs.append(f)
        for c in m.classes.values():
            funcs += list(c.methods.values()) + list(c.setters.values())
        for f in funcs:
            for n in ast.walk(f.node):
                if not isinstance(n, ast.Call):
                    continue
                t = call_target(project, f, n)
                if t is None:
                    continue
                one_call(project, res, f, n, *t)
    res.guard("resolved_calls", 1500)
    return res


def one_call(project, res, f, n, g, bound):
    res.count("resolved_calls")
    s, pos = fsig(project, g, bound)
    star = any(isinstance(a, ast.Starred) for a in n.args)
    dstar = any(k.arg is None for k in n.keywords)
    npos = len(n.args)
    what = f"{g.qualname} ({g.relpath})"
    if not star and s.maxpos is not None and npos > s.maxpos:
        res.add("too-many-arguments", where(f), short(n.func), f"passes {npos} positional arguments to {what}, which takes "
                f"{s.maxpos}", n.lineno)
    if not s.open:
        for k in n.keywords:
            if k.arg is not None and k.arg not in s.names:
                res.add("unknown-keyword", where(f), f"{short(n.func)}({k.arg}=)",
                        f"passes keyword {k.arg!r}, which {what} and everything it forwards to do not accept", n.lineno)
    if not star and not dstar:
        given = {k.arg for k in n.keywords} | set(pos[:npos])
        miss = [p for p in s.required if p not in given]
        if miss:
            res.add("missing-argument", where(f), f"{short(n.func)}: {', '.join(miss)}",
                    f"calls {what} without required argument(s) {', '.join(miss)}", n.lineno)
    if not star:
        dup = {k.arg for k in n.keywords if k.arg} & set(pos[:npos])
        for d in dup:
            res.add("duplicate-argument", where(f), f"{short(n.func)}({d}=)", f"passes {d!r} to {what} twice", n.lineno)


# ------------------------------------------------------------------ attributes of objects whose class is known
def attr_types_opt(project, c):
    """self attributes that only ever hold None or instances of one project class"""
    r = getattr(c, "_atypes_opt", None)
    if r is not None:
        return r
    typ, bad = {}, set()
    fam = set(project.mro(c))
    for b in fam:
        for f in list(b.methods.values()) + list(b.setters.values()):
            ps = f.params()
            if not ps:
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == ps[0]:
                    par = parent_assign(f, n)
                    v = par.value if isinstance(par, ast.Assign) and len(par.targets) == 1 and par.targets[0] is n else None
                    if isinstance(v, ast.Constant) and v.value is None:
                        continue
                    t = ctor_class(project, f, v)
                    if t is not None:
                        typ.setdefault(n.attr, set()).add(t)
                    else:
                        bad.add(n.attr)
    out = {k: next(iter(v)) for k, v in typ.items() if len(v) == 1 and k not in bad and k not in c.attrs}
    c._atypes_opt = out
    return out


def parent_assign(f, node):
    m = getattr(f, "_passign", None)
    if m is None:
        m = {}
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For)):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    for x in ast.walk(t):
                        m[id(x)] = n
        f._passign = m
    return m.get(id(node))


def ctor_class(project, f, v):
    if isinstance(v, ast.Call):
        root = v.func
        while isinstance(root, ast.Attribute):
            root = root.value
        if isinstance(root, ast.Name) and not shadowed(f.module, root):
            t = project.dotted(f.module, v.func)
            if t and t[0] == "class":
                return t[1]
        return None
    if isinstance(v, ast.Name):
        return local_types(project, f).get(v.id)
    return None


def last(e):
    return e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else None


def check_typed_attrs(project, tier):
    res = Result()
    own = class_info(project)

    def universe(c):
        u = getattr(c, "_universe", 0)
        if u == 0:
            u = set()
            for b in project.mro(c):
                n, o = own[b]
                if o:
                    u = None
                    break
                u |= n
            ext = [b for b in project.ext_bases(c) if b not in ("builtins.object", "ABC", "abc.ABC")]
            if ext or any("dataclass" in ast.unparse(d) for d in c.node.decorator_list) or "__getattr__" in (u or ()):
                u = None
            c._universe = u
        return u

    outside = {}
    readback = set()    # (called, attribute) read somewhere
    for m in project.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (
                isinstance(n.value, ast.Name) and n.value.id in ("self", "cls")):
                outside.setdefault(n.attr, n)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                readback.add((last(n.value), n.attr))
    for f in project.all_functions():
        lt = local_types(project, f)
        at = attr_types_opt(project, f.cls) if f.cls is not None else {}
        me = f.params()[0] if f.cls is not None and f.params() and not f.is_static else None
        guarded = {n.args[1].value for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)
                   and n.func.id in ("hasattr", "getattr") and len(n.args) >= 2 and isinstance(n.args[1], ast.Constant)}
        for n in walk_own(f.node):
            if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Load, ast.Store))):
                continue
            b = n.value
            c = None
            if isinstance(b, ast.Name) and b.id in lt:
                c = lt[b.id]
            elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id == me:
                c = at.get(b.attr)
            elif isinstance(b, ast.Call):
                c = ctor_class(project, f, b)
            if c is None:
                continue
            u = universe(c)
            if u is None:
                continue
            if isinstance(n.ctx, ast.Store):
                res.count("typed_attribute_stores")
                if n.attr not in OBJECT_ATTRS and not any(n.attr in (universe(k) or (n.attr,)) for k in [c] + list(project.subclasses(c))) and (last(b), n.attr) not in readback:
                    res.add("attribute-nobody-knows", where(f), short(n),
                            f"sets attribute {n.attr!r} of an object of class {c.name}, which has no attribute of that name: nothing ever reads it there", n.lineno)
                continue
            res.count("typed_attribute_reads")
            if n.attr in u or n.attr in OBJECT_ATTRS or n.attr in guarded or n.attr in outside:
                continue
            res.add("attribute-never-defined", where(f), short(n),
                    f"reads attribute {n.attr!r} of an object of class {c.name}, which never defines it", n.lineno)
    res.guard("typed_attribute_reads", 150)
    return res
