"""Attribute and method names on objects of unknown class: some class in the package or in a library must define them.

Nothing is inferred about the receiver.  A name nobody defines, in the package, the installed libraries it imports or the
interpreter, fails whatever the object is; so does a call no definition of that name can accept.
"""
import ast
import builtins
import os
import re
import subprocess
import tempfile

from ..core import Result
from ..external import external
from ..project import flat_stmts
from ..util import short
from .libraries import tolerated
from .linking import enclosing, fsig, in_scope

WORD = re.compile(r"[A-Za-z_]\w*")


def docstrings(tree):
    out = set()
    for n in ast.walk(tree):
        b = getattr(n, "body", None)
        if isinstance(b, list) and b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
            out.add(id(b[0].value))
        if isinstance(b, list):
            for st in b:
                if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                    out.add(id(st.value))
    return out


class Vocabulary:
    def __init__(self, project):
        self.defined, self.strings, self.reads, self.tops = set(), set(), set(), set()
        self.open_modules = set()
        ext = external()
        for m in project.modules.values():
            self.defined |= set(m.name.split("."))
            doc = docstrings(m.tree)
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute):
                    if isinstance(n.ctx, ast.Load):
                        self.reads.add(n.attr)
                    else:
                        self.defined.add(n.attr)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    self.defined.add(n.name)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    self.defined.add(n.id)
                elif isinstance(n, ast.Constant) and isinstance(n.value, str) and id(n) not in doc:
                    for w in WORD.findall(n.value):
                        self.strings.add(w)
                    for w in re.findall(r"[\w-]+", n.value):
                        self.strings.add(w.strip("-").replace("-", "_"))
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    mods = [a.name for a in n.names] if isinstance(n, ast.Import) else [] if n.level else [n.module or ""]
                    for a in n.names:
                        self.defined.add((a.asname or a.name).split(".")[0])
                    for d in mods:
                        t = d.split(".")[0]
                        if t == "rubin_sim" or not t:
                            continue
                        self.tops.add(t)
                        if not ext.exists(t) or not ext.exists(".".join(d.split(".")[:2])):
                            self.open_modules.add(m.name)
        # templates of the web pages call methods by name
        for dp, dn, fn in os.walk(os.path.join(project.repo, "rubin_sim")):
            for f in fn:
                if f.endswith((".html", ".css", ".js", ".txt", ".sql", ".yaml", ".toml")) and os.path.getsize(os.path.join(dp, f)) < 400000:
                    ws = set(WORD.findall(open(os.path.join(dp, f), encoding="utf-8", errors="replace").read()))
                    self.strings |= ws
        bt = set()
        for b in list(vars(builtins).values()) + [type(lambda: 0), type((x for x in ())), type(builtins), type(WORD), type(WORD.match("a"))]:
            bt |= set(dir(b))
        self.builtin = bt

    def in_libraries(self, names):
        """the names that occur anywhere in the installed libraries the package imports"""
        names = sorted(set(names))
        if not names:
            return set()
        ext = external()
        dirs = []
        for t in sorted(self.tops) + ["mpl_toolkits", "erfa", "pytz", "dateutil", "PIL", "typing_extensions", "lsst"]:
            for r in ext.roots[:1]:
                for c in (os.path.join(r, t), os.path.join(r, t + ".py")):
                    if os.path.exists(c):
                        dirs.append(c)
        dirs += [r for r in ext.roots if "site-packages" not in r]
        with tempfile.NamedTemporaryFile("w", suffix=".txt", delete=False) as fh:
            fh.write("\n".join(names) + "\n")
        try:
            out = subprocess.run(["grep", "-rhowaF", "-f", fh.name, "--include=*.py", "--include=*.pyi", "--include=*.so"] + sorted(set(dirs)),
                                 capture_output=True, text=True, errors="replace").stdout
        finally:
            os.unlink(fh.name)
        return set(out.split("\n")) & set(names)


def vocabulary(project):
    v = getattr(project, "_vocab", None)
    if v is None:
        v = project._vocab = Vocabulary(project)
    return v


def check_names(project, tier):
    res = Result()
    v = vocabulary(project)
    cand, stores = {}, {}
    for m in project.modules.values():
        if not in_scope(m):
            continue
        ok = tolerated(m)
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Attribute) or id(n) in ok:
                continue
            if isinstance(n.ctx, ast.Load):
                res.count("attribute_names_read")
                if n.attr in v.defined or n.attr in v.strings or n.attr in v.builtin or m.name in v.open_modules:
                    continue
                r = project.dotted(m, n.value) if isinstance(n.value, ast.Name) and n.value.id in m.imports else None
                if r is not None and r[0] in ("module", "ext"):
                    continue  # judged by the namespace of that module
                cand.setdefault(n.attr, []).append((m, n))
            elif isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id in ("self", "cls")):
                res.count("attribute_names_set")
                if n.attr in v.reads or n.attr in v.strings or n.attr in v.builtin or m.name in v.open_modules:
                    continue
                stores.setdefault(n.attr, []).append((m, n))
    known = v.in_libraries(list(cand) + list(stores))
    for a, occ in cand.items():
        if a in known:
            continue
        for m, n in occ:
            res.add("name-nobody-defines", f"{m.relpath}:{enclosing(m, n)}", "." + a,
                    f"{short(n)}: reads attribute {a!r}, which nothing in the package or the libraries it imports defines", n.lineno)
    for a, occ in stores.items():
        if a in known:
            continue
        for m, n in occ:
            res.add("name-nobody-reads", f"{m.relpath}:{enclosing(m, n)}", "." + a,
                    f"{short(n)}: sets attribute {a!r} of another object; nothing in the package or the libraries it imports ever reads it", n.lineno)
    res.guard("attribute_names_read", 10000)
    return res


def check_method_calls(project, tier):
    """a call x.name(...) where only project classes define the method: at least one definition accepts it"""
    res = Result()
    v = vocabulary(project)
    defs = {}
    for c in project.all_classes():
        for nm, f in list(c.methods.items()):
            defs.setdefault(nm, []).append(f)
    other = set()  # names that are also something else: attributes holding callables, functions of modules
    for m in project.modules.values():
        other |= set(m.functions) | set(m.classes)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                other.add(n.attr)
    for c in project.all_classes():
        other |= set(c.attrs)
    bad = []
    for m in project.modules.values():
        if not in_scope(m) or m.name in v.open_modules:
            continue
        ok = tolerated(m)
        for n in ast.walk(m.tree):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)) or id(n) in ok:
                continue
            a = n.func.attr
            if a not in defs or a in other or a in v.builtin or a.startswith("__"):
                continue
            if isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == "super":
                continue
            fs = defs[a]
            if any(f.is_property or any(d not in ("staticmethod", "classmethod") for d in f.decorators) for f in fs):
                continue
            res.count("method_calls")
            why = [fits(project, f, n) for f in fs]
            if all(why):
                bad.append((a, m, n, why[0], fs))
    known = v.in_libraries({b[0] for b in bad})
    for a, m, n, why, fs in bad:
        if a in known:
            continue
        res.add("no-definition-accepts-call", f"{m.relpath}:{enclosing(m, n)}", f"{short(n.func)}: {why}",
                f"calls method {a!r}, defined by {', '.join(sorted({f.cls.name for f in fs}))}, and {why}", n.lineno)
    res.guard("method_calls", 700)
    return res


def fits(project, f, call):
    """why the call cannot reach f, or None; an explicit receiver (Class.method(obj, ...)) is also tried"""
    why = None
    for bound in ((False,) if f.is_static else (True, False)):
        s, pos = fsig(project, f, bound)
        w = reject(s, pos, call)
        if w is None:
            return None
        why = why or w
    return why


def reject(s, pos, n):
    star = any(isinstance(a, ast.Starred) for a in n.args)
    dstar = any(k.arg is None for k in n.keywords)
    np_ = len(n.args)
    if not star and s.maxpos is not None and np_ > s.maxpos:
        return f"passes {np_} positional arguments, where at most {s.maxpos} are taken"
    for k in n.keywords:
        if k.arg is not None and not s.open and k.arg not in s.names:
            return f"passes keyword {k.arg!r}, which is not accepted"
        if k.arg is not None and not star and k.arg in pos[:np_]:
            return f"passes {k.arg!r} twice"
    if not star and not dstar:
        miss = [p for p in s.required if p not in set(pos[:np_]) | {k.arg for k in n.keywords}]
        if miss:
            return f"leaves out required argument(s) {', '.join(miss)}"
    return None
