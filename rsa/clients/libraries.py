"""What the package takes from the libraries it imports is there, and is called as it is defined."""
import ast

from ..core import Result, where
from ..external import ESig, OPEN, external, rejected
from ..project import FuncInfo, walk_own
from ..util import short
from .linking import enclosing, in_scope, scopes, shadowed

CATCHING = ("ImportError", "ModuleNotFoundError", "AttributeError", "Exception", "BaseException", "NameError")


def tolerated(m):
    """ids of the nodes inside a try whose handler takes over when a name is missing (and of that handler)"""
    out = set()
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Try) and any(h.type is None or any(c in ast.unparse(h.type) for c in CATCHING) for h in n.handlers):
            for st in n.body + [x for h in n.handlers for x in h.body]:
                out |= {id(x) for x in ast.walk(st)}
        elif isinstance(n, (ast.If, ast.IfExp)) and any(
                isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("hasattr", "getattr") or isinstance(x, ast.Attribute) and x.attr in ("__version__", "version_info", "version")
                or isinstance(x, ast.Name) and x.id == "TYPE_CHECKING"
                for x in ast.walk(n.test)):
            out |= {id(x) for x in ast.walk(n)}
    return out


def local_import(m, name_node):
    """("mod"|"from", ...) when the name is bound in its function only by import statements"""
    for s in reversed(scopes(m)[0].get(id(name_node), ())):
        if isinstance(s, ast.ClassDef):
            continue
        if isinstance(s, ast.Lambda):
            if name_node.id in {a.arg for a in s.args.args}:
                return None
            continue
        a = s.args
        if name_node.id in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]:
            return None
        binds, imps = 0, []
        for n in walk_own(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id == name_node.id:
                binds += 1
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == name_node.id:
                binds += 1
            elif isinstance(n, ast.ExceptHandler) and n.name == name_node.id:
                binds += 1
            elif isinstance(n, ast.Import):
                for al in n.names:
                    if (al.asname or al.name.split(".")[0]) == name_node.id:
                        imps.append(("mod", al.name if al.asname else al.name.split(".")[0]))
            elif isinstance(n, ast.ImportFrom):
                for al in n.names:
                    if (al.asname or al.name) == name_node.id:
                        imps.append(("from", m.resolve_rel(n.module, n.level), al.name))
        if binds:
            return None
        if imps:
            return imps[0] if len(set(imps)) == 1 else None
    return None


def library_name(project, m, node):
    """dotted library name an expression denotes, or None"""
    if isinstance(node, ast.Name):
        if shadowed(m, node):
            imp = local_import(m, node)
            if imp is None:
                return None
            d = imp[1] if imp[0] == "mod" else f"{imp[1]}.{imp[2]}"
            return None if d.split(".")[0] == "rubin_sim" else d
        r = project.resolve(m, node.id)
        if r is None or r[0] != "ext":
            return None
        ms = m.imports.get(node.id)
        if node.id in m.assigns or ms is None and not any(s.split(".")[0] != "rubin_sim" for s in m.stars) and r[1].split(".")[-1] != node.id:
            return None
        return r[1]
    if isinstance(node, ast.Attribute):
        if isinstance(node.value, (ast.Name, ast.Attribute)):
            b = library_name(project, m, node.value)
            if b is not None:
                return f"{b}.{node.attr}"
            root = node.value
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and not shadowed(m, root):
                r = project.dotted(m, node)
                if r is not None and r[0] == "ext":
                    return r[1]
    return None


def check_members(project, tier):
    res = Result()
    ext = external()
    for m in project.modules.values():
        if not in_scope(m):
            continue
        ok = tolerated(m)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom) and not n.level and n.module and n.module.split(".")[0] != "rubin_sim":
                if id(n) in ok:
                    continue
                for a in n.names:
                    if a.name == "*":
                        continue
                    res.count("library_imports")
                    r, miss = ext.lookup(f"{n.module}.{a.name}")
                    if miss is not None:
                        res.add("library-member-missing", f"{m.relpath}:{enclosing(m, n)}", f"{miss[0]}.{miss[1]}",
                                f"imports {a.name} from {n.module}: {miss[0]} defines no {miss[1]!r}", n.lineno)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                if id(n) in ok:
                    continue
                d = library_name(project, m, n)
                if d is None:
                    continue
                res.count("library_attribute_reads")
                r, miss = ext.lookup(d)
                if miss is not None and miss[1] == n.attr and d.endswith("." + n.attr):
                    res.add("library-member-missing", f"{m.relpath}:{enclosing(m, n)}", f"{miss[0]}.{miss[1]}",
                            f"{short(n)!r} is read, but {miss[0]} defines no {miss[1]!r}", n.lineno)
    res.guard("library_attribute_reads", 2000)
    return res


def elocal_types(project, f):
    """local variables only ever bound to one library class's constructor"""
    r = getattr(f, "_eltypes", None)
    if r is not None:
        return r
    ext = external()
    cnt, typ = {p: 2 for p in f.all_params()}, {}
    for n in walk_own(f.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            cnt[n.id] = cnt.get(n.id, 0) + 1
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call):
            d = library_name(project, f.module, n.value.func)
            if d:
                x, _ = ext.lookup(d)
                if x and x[0] == "class":
                    typ.setdefault(n.targets[0].id, []).append(x[1])
    f._eltypes = {k: v[0] for k, v in typ.items() if len(v) == cnt.get(k) and len({id(c) for c in v}) == 1}
    return f._eltypes


def ext_mro(project, c):
    """(project classes, library classes) of a class, or None when a base is unknown"""
    r = getattr(c, "_extmro", 0)
    if r != 0:
        return r
    ext = external()
    out, ok = [], True
    for b in project.mro(c):
        for base in b.node.bases:
            t = project.dotted(b.module, base)
            if t is not None and t[0] == "class":
                continue
            d = library_name(project, b.module, base)
            if d is None:
                k = ext.builtin(base.id) if isinstance(base, ast.Name) and t is not None and t[0] == "builtin" else None
                if ast.unparse(base) in ("object",):
                    continue
                if k is None:
                    ok = False
                elif k not in out:
                    out.append(k)
                continue
            if d.split(".")[-1] in ("ABC", "object"):
                continue
            x, _ = ext.lookup(d)
            if not x or x[0] != "class":
                ok = False
                continue
            mro = ext.mro(x[1])
            if mro is None:
                ok = False
            else:
                out += [k for k in mro if k not in out]
    c._extmro = (project.mro(c), out) if ok else None
    return c._extmro


def target(project, f, call):
    """list of (what, nodes, bound) a call of library code must all fit, or None"""
    ext = external()
    fn, m = call.func, f.module
    d = library_name(project, m, fn) if isinstance(fn, (ast.Name, ast.Attribute)) else None
    if d is not None:
        x, _ = ext.lookup(d)
        if not x or x is OPEN:
            return None
        if x[0] == "func":
            return [(d, x[1], False)]
        if x[0] == "method":
            return [(d, x[1], any("classmethod" in ast.unparse(q) for q in x[1][0].decorator_list))]
        if x[0] == "class":
            return ctor(ext, x[1], d)
        return None
    if isinstance(fn, ast.Attribute):
        b = fn.value
        if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "super" and not b.args and f.cls is not None:
            if project.find_method_after(f.cls, f.cls, fn.attr) is not None:
                return None
            em = ext_mro(project, f.cls)
            if em is None or any(k.open and fn.attr not in k.methods for k in em[1][:1]):
                return None
            for k in em[1]:
                if fn.attr in k.methods:
                    return [(f"{k.module.name}.{k.name}.{fn.attr}", k.methods[fn.attr], True)]
            return None
        if isinstance(b, ast.Name):
            me = f.params()[0] if f.cls is not None and f.params() and not f.is_static else None
            if b.id == me and not f.is_classmethod:
                if any(fn.attr in k.methods for k in project.mro(f.cls)) or any(fn.attr in s.methods for s in project.subclasses(f.cls)):
                    return None
                em = ext_mro(project, f.cls)
                for k in (em[1] if em else ()):
                    if fn.attr in k.methods:
                        return [(f"{k.module.name}.{k.name}.{fn.attr}", k.methods[fn.attr], True)]
                return None
            c = elocal_types(project, f).get(b.id)
            if c is not None:
                r = ext.find_method(c, fn.attr)
                if r and r is not OPEN and not any("property" in ast.unparse(q) for q in r[0][0].decorator_list):
                    return [(f"{r[1].module.name}.{r[1].name}.{fn.attr}", r[0], True)]
    return None


def ctor(ext, c, d):
    mro = ext.mro(c)
    if mro is None or any(k.open and not ("__init__" in k.methods) for k in mro[:1]):
        return None
    if any(k.node.keywords and any(q.arg == "metaclass" and not ast.unparse(q.value).endswith("ABCMeta") for q in k.node.keywords) for k in mro):
        return None
    if any("dataclass" in ast.unparse(q) for k in mro for q in k.node.decorator_list) or any(
            ast.unparse(b).split(".")[-1] in ("NamedTuple", "TypedDict", "Enum", "IntEnum", "Structure", "namedtuple", "tuple") for k in mro for b in k.node.bases):
        return None
    out = []
    for nm in ("__new__", "__init__"):
        r = ext.find_method(c, nm)
        if r is OPEN:
            return None
        if r:
            # __new__ is a static method whose first argument is supplied
            out.append((f"{d}", r[0], True))
    return out or None


def check_calls(project, tier):
    res = Result()
    seen = set()
    for m in project.modules.values():
        if not in_scope(m):
            continue
        ok = tolerated(m)
        funcs = list(m.functions.values())
        for c in m.classes.values():
            funcs += list(c.methods.values()) + list(c.setters.values())
        units = [(f, f.node) for f in funcs]
        for f, node in units:
            for n in ast.walk(node):
                if not isinstance(n, ast.Call) or id(n) in ok or id(n) in seen:
                    continue
                seen.add(id(n))
                t = target(project, f, n)
                if t is None:
                    continue
                res.count("library_calls")
                for what, nodes, bound in t:
                    why = rejected(nodes, bound, n)
                    if why:
                        res.add("library-call-mismatch", where(f), f"{short(n.func)}: {why}",
                                f"calls {what} and {why}", n.lineno)
                        break
    res.guard("library_calls", 800)
    return res


def exception_names(project, m, h):
    """attributes an instance of any class a handler catches has, or None when not known"""
    ext = external()
    out = None
    for t in h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]:
        names = None
        r = project.dotted(m, t) if isinstance(t, (ast.Name, ast.Attribute)) else None
        d = library_name(project, m, t) if isinstance(t, (ast.Name, ast.Attribute)) else None
        if d is not None:
            x, _ = ext.lookup(d)
            mro = ext.mro(x[1]) if x and x[0] == "class" else None
            if mro is not None and not any(k.open for k in mro):
                names = set().union(*[k.attrs | set(k.methods) for k in mro])
        elif r is not None and r[0] == "builtin":
            k = ext.builtin(r[1])
            names = k.attrs if k is not None else None
        elif r is not None and r[0] == "class":
            em = ext_mro(project, r[1])
            from .linking import class_info
            if em is not None and not any(k.open for k in em[1]):
                own = project_info(project)
                if not any(own[b][1] for b in em[0]):
                    names = set().union(*[own[b][0] for b in em[0]], *[k.attrs | set(k.methods) for k in em[1]])
        if names is None:
            return None
        out = set(names) if out is None else out | names
    return out


def project_info(project):
    from .linking import class_info
    r = getattr(project, "_classinfo", None)
    if r is None:
        r = project._classinfo = class_info(project)
    return r


def check_exceptions(project, tier):
    """what a handler reads of the exception it caught is there"""
    res = Result()
    for m in project.modules.values():
        if not in_scope(m):
            continue
        for h in ast.walk(m.tree):
            if not (isinstance(h, ast.ExceptHandler) and h.name and h.type is not None):
                continue
            reads = [n for st in h.body for n in ast.walk(st) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)
                     and isinstance(n.value, ast.Name) and n.value.id == h.name]
            if any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == h.name for st in h.body for n in ast.walk(st)):
                continue
            res.count("handlers")
            names = exception_names(project, m, h) if reads else None
            for n in reads:
                res.count("exception_reads")
                if names is not None and n.attr not in names:
                    res.add("attribute-never-defined", f"{m.relpath}:{enclosing(m, n)}", short(n),
                            f"reads attribute {n.attr!r} of a caught {short(h.type)}, which has none", n.lineno)
    res.guard("handlers", 10)
    return res


def check_instances(project, tier):
    """attributes of objects of library classes, and of self in classes built on library classes"""
    res = Result()
    ext = external()
    outside = set()
    for m in project.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (
                    isinstance(n.value, ast.Name) and n.value.id in ("self", "cls")):
                outside.add(n.attr)
    from .linking import OBJECT_ATTRS, class_info
    own = class_info(project)
    for f in project.all_functions():
        if not in_scope(f.module):
            continue
        ok = tolerated(f.module)
        lt = elocal_types(project, f)
        names = None
        me = None
        if f.cls is not None and f.params() and not f.is_static:
            em = ext_mro(project, f.cls)
            if em and em[1] and not any(k.name == "type" for k in em[1]):
                me = f.params()[0]
                fam = set(project.mro(f.cls))
                for s in project.subclasses(f.cls):
                    fam |= set(project.mro(s))
                if any(own[b][1] for b in fam) or any(k.open for k in em[1]):
                    me = None
                else:
                    names = set().union(*[own[b][0] for b in fam]) | set().union(*[k.attrs | set(k.methods) for k in em[1]])
        for n in walk_own(f.node):
            if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name)) or id(n) in ok:
                continue
            if n.attr in OBJECT_ATTRS or n.attr in outside:
                continue
            if n.value.id == me:
                res.count("library_instance_reads")
                if n.attr not in names:
                    res.add("attribute-never-defined", where(f), short(n), f"reads attribute {n.attr!r}, which neither {f.cls.name} nor the "
                            f"library classes it is built on define", n.lineno)
            elif n.value.id in lt:
                c = lt[n.value.id]
                mro = ext.mro(c)
                if mro is None or any(k.open for k in mro):
                    continue
                res.count("library_instance_reads")
                if not any(n.attr in k.methods or n.attr in k.attrs for k in mro):
                    res.add("attribute-never-defined", where(f), short(n), f"reads attribute {n.attr!r} of an object of class "
                            f"{c.module.name}.{c.name}, which never defines it", n.lineno)
    res.guard("library_instance_reads", 20)
    return res
