"""What a caller selects reaches every bundle that a batch of metrics makes, and no bundle is lost.

An abstract interpreter walks every function that makes metric bundles. Each value carries the parameters it certainly depends on
(given that the caller did hand over a selection), the pieces of SQL whose OR is not enclosed in parentheses, and the bundles it
may hold. Branches are joined, loops are taken to run, called package functions are entered.
"""
import ast
import re
from collections import namedtuple

from ..core import Result
from ..external import OPEN, external
from ..project import ClassInfo, FuncInfo
from ..util import short

SELECT = re.compile(r"^(extra_?sql|sql_?constraint|extra_?constraint|constraint|sql)$", re.I)
RUN = re.compile(r"^(run_?name|opsim)$", re.I)
LABEL = re.compile(r"^extra_?info_?label$", re.I)
OPERATOR = re.compile(r"(=|<|>|\blike\b|\bin\s*\(|\bis\s+(not\s+)?null|\bbetween\b)", re.I)
OR = re.compile(r"(^|[\s)])or([\s(]|$)", re.I)
AND_END = re.compile(r"(^|[\s)])(and|not)\s*$", re.I)
AND_START = re.compile(r"^\s*and([\s(]|$)", re.I)
NC = object()
E = frozenset()
V = namedtuple("V", "deps orr truth const sites elem parts sql starts ends cols text")
TOP = V(E, E, None, NC, E, None, None, False, False, False, E, False)
MAXDEPTH = 5
KEEP = {"replace", "strip", "lstrip", "rstrip", "lower", "upper", "title", "capitalize", "copy", "tolist", "astype", "encode"}
CONTAINERS = {"append", "extend", "insert", "add", "update", "setdefault"}


def const(c):
    orr = frozenset([repr(c)]) if isinstance(c, str) and OPERATOR.search(c) and top_or(c) else E
    return TOP._replace(const=c, truth=bool(c), orr=orr, cols=columns(c) if isinstance(c, str) else E, text=isinstance(c, str), sql=isinstance(c, str) and bool(OPERATOR.search(c)))


COLUMN = re.compile(r"(?<![\w.'%\x00-])([A-Za-z_]\w*)\s*(?:(?:==|=|<=|>=|!=|<>|<|>)\s*(?=$|['\d%{\x00-])('[ugrizy]'|'?\x00'?(?=$|[\s)]))?|(?:not\s+)?(?:like|in)\s+['(\x00])", re.I)


def columns(text):
    """the columns that an SQL condition compares: (name, with a band)"""
    out, quoted = "", False
    for part in text.split("'"):
        # what stands between quotes is a value, except that one letter may be a band
        out += part if not quoted else "'" + (part if re.fullmatch(r"[ugrizy\x00]", part) else "#") + "'"
        quoted = not quoted
    return frozenset((m.group(1), m.group(2) is not None) for m in COLUMN.finditer(out))


def top_or(text):
    """an OR outside all parentheses and quotes"""
    depth, out, quoted = 0, "", False
    for ch in text:
        if ch == "'":
            quoted = not quoted
            ch = "x"
        elif quoted:
            ch = "x"
        elif ch == "(":
            depth += 1
        elif ch == ")":
            depth -= 1
            ch = ") "[depth <= 0]
        out += ch if depth <= 0 else "x"
    return bool(OR.search(out))


def mixed(text):
    """whether AND and OR stand side by side outside all parentheses, with a part put in before or after"""
    depth, out, quoted = 0, "", False
    for ch in text:
        if ch == "'":
            quoted = not quoted
        depth -= ch == ")" and not quoted
        out += ch if depth <= 0 and not quoted or ch in "\0" and not quoted else "x" if not ch.isspace() or quoted or depth else ch
        depth += ch == "(" and not quoted
    parts = re.split(r"\bor\b", out, flags=re.I)
    return len(parts) > 1 and any("\0" in p and re.search(r"\band\b", p, re.I) for p in parts) and not all("\0" in p for p in parts)


def join(a, b):
    if a is None:
        return b
    if b is None or a == b:
        return a
    parts = elem = None
    if a.parts is not None and b.parts is not None and len(a.parts) == len(b.parts):
        parts = tuple(join(x, y) for x, y in zip(a.parts, b.parts))
    elif a.parts is not None or b.parts is not None or a.elem is not None or b.elem is not None:
        elem = join(inner(a), inner(b))
    return V(a.deps & b.deps, a.orr | b.orr, a.truth if a.truth == b.truth else None, a.const if a.const is b.const or type(a.const) is type(b.const) and a.const == b.const else NC,
             a.sites | b.sites, elem, parts, a.sql and b.sql, a.starts and b.starts, a.ends and b.ends, a.cols | b.cols, a.text and b.text)


BOT = TOP._replace(const="#bottom")     # the element of an empty container


def inner(v):
    """what an element of a container is"""
    if v.elem is not None:
        return None if v.elem is BOT else v.elem
    if v.parts is not None:
        out = None
        for p in v.parts:
            out = join(out, p)
        return out
    if v.const is None:
        return None
    return TOP._replace(deps=v.deps, sites=v.sites, orr=v.orr if v.sql else E)


def element(v):
    x = inner(v)
    return TOP if x is None or x is BOT else x


def box(elem, truth=None, deps=E):
    """a container: what each of its elements is, and what some of them certainly carry"""
    return TOP._replace(elem=BOT if elem is None else elem, sites=E if elem is None else elem.sites, truth=truth, deps=frozenset(deps))


class Closure:
    def __init__(self, f):
        self.f = f


def everything(v):
    """all the bundles a value may hold"""
    out = set(v.sites)
    for p in v.parts or ():
        out |= everything(p)
    if v.elem is not None:
        out |= everything(v.elem)
    return out


def depends(v):
    d = set(v.deps)
    for p in v.parts or ():
        d |= depends(p)
    if v.elem is not None:
        d |= depends(v.elem)
    return d


def marked(v, tokens):
    """the same value, known to differ with what the tokens stand for"""
    if not tokens:
        return v
    return v._replace(deps=v.deps | tokens, parts=tuple(marked(p, tokens) for p in v.parts) if v.parts is not None else None,
                      elem=marked(v.elem, tokens) if v.elem is not None and v.elem is not BOT else v.elem)


def turns(deps):
    return frozenset(d for d in deps if d.startswith("#loop"))


class Site(namedtuple("Site", "path fn line text")):
    pass


class Bundles:
    """the classes whose objects are bundles, and the functions that make them"""

    def __init__(self, project):
        self.project = project
        self.ctor = {}
        self.makes = {}
        self.schemas = {}

    def bundle_class(self, c):
        if c not in self.ctor:
            init = self.project.find_method(c, "__init__")
            self.ctor[c] = init if init is not None and "constraint" in init.all_params() and self.project.find_method(c, "set_run_name") is not None else None
        return self.ctor[c]

    def schema(self, module):
        """(columns the visit database may have, the one that holds bands for the column map that the module asks for)"""
        if module in self.schemas:
            return self.schemas[module]
        f = next((f for f in self.project.all_functions() if f.name == "col_map_dict" and f.cls is None), None)
        known, band = set(), None
        lib = external().lookup("rubin_scheduler.scheduler.utils.SchemaConverter")
        nodes = [f.node] if f is not None else []
        if lib is not None and lib is not OPEN and getattr(lib[-1], "node", None) is not None:
            nodes.append(lib[-1].node)
        else:
            nodes = []
        for nd in nodes:
            known |= {x.value for x in ast.walk(nd) if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.isidentifier()}
        if f is not None:
            asked = {c.args[0].value.lower() if c.args and isinstance(c.args[0], ast.Constant) and isinstance(c.args[0].value, str) else "fbs" for c in ast.walk(module.tree)
                     if isinstance(c, ast.Call) and (getattr(c.func, "id", None) or getattr(c.func, "attr", None)) == "col_map_dict"} or {"fbs"}
            found = {self.band_column(f.node, a) for a in asked}
            band = found.pop() if len(found) == 1 else None
        self.schemas[module] = (known, band)
        return self.schemas[module]

    @staticmethod
    def band_column(node, which):
        """the entry 'filter' of the column map called `which`"""
        for i in ast.walk(node):
            if isinstance(i, ast.If) and which in {x.value for x in ast.walk(i.test) if isinstance(x, ast.Constant)}:
                for st in i.body:
                    for x in ast.walk(st):
                        if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Subscript) and isinstance(x.targets[0].slice, ast.Constant) and x.targets[0].slice.value == "filter" and isinstance(x.value, ast.Constant):
                            return x.value.value
                        if isinstance(x, ast.Dict):
                            for k, v in zip(x.keys, x.values):
                                if isinstance(k, ast.Constant) and k.value == "filter" and isinstance(v, ast.Constant):
                                    return v.value
        return None

    def resolve(self, module, fn):
        r = self.project.dotted(module, fn) if isinstance(fn, (ast.Name, ast.Attribute)) else None
        return r[1] if r is not None and r[0] in ("class", "func") else None

    def makes_bundles(self, f, depth=0):
        if f in self.makes:
            return self.makes[f]
        self.makes[f] = False
        out = False
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                t = self.resolve(f.module, n.func)
                if isinstance(t, ClassInfo) and self.bundle_class(t) or isinstance(t, FuncInfo) and depth < 8 and self.makes_bundles(t, depth + 1):
                    out = True
                    break
        self.makes[f] = out
        return out


class Eval:
    def __init__(self, bundles, f, res, top=None):
        self.b, self.f, self.res = bundles, f, res
        self.top = top or self
        self.depth = 0 if top is None else top.depth + 1
        self.returned = None
        self.exits = []
        self.made = set()
        self.lost = {}
        if top is None:
            self.seen_sql = set()
            self.stack = []
            self.via = {}
            self.steps = 0

    # ------------------------------------------------------------------ state
    @staticmethod
    def merge(a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = {}
        for k in a.keys() | b.keys():
            if k in ("#sites", "#esc"):
                continue
            if k in a and k in b:
                out[k] = join(a[k], b[k])
            else:
                # a name given on one way only: when it is read, that way was taken
                out[k] = a.get(k, b.get(k))
        sa, sb = a["#sites"], b["#sites"]
        out["#sites"] = {s: tuple(x & y for x, y in zip(sa[s], sb[s])) if s in sa and s in sb else sa.get(s, sb.get(s)) for s in sa.keys() | sb.keys()}
        out["#esc"] = a["#esc"] | b["#esc"]
        return out

    @staticmethod
    def fork(env):
        e = dict(env)
        e["#sites"] = dict(env["#sites"])
        return e

    def run(self, args, sites, esc):
        env = dict(args)
        env["#sites"], env["#esc"] = dict(sites), esc
        out = self.block(self.f.node.body, env)
        if out is not None:
            self.leave(out, const(None), None)
        return self.returned if self.returned is not None else const(None)

    def leave(self, env, v, node):
        held = everything(v) | env["#esc"]
        for s in self.made:
            if s in env["#sites"] and s not in held:
                self.lost.setdefault(s, node)
        self.returned = join(self.returned, v)
        self.exits.append((env, v))

    # ------------------------------------------------------------------ statements
    def block(self, sts, env):
        for st in sts:
            if env is None:
                return None
            env = self.stmt(st, env)
        return env

    def stmt(self, st, env):
        if isinstance(st, ast.Expr):
            self.ev(st.value, env)
        elif isinstance(st, ast.Assign):
            before, self.top.anew = self.top.anew, set()
            v = self.ev(st.value, env)
            self.again = frozenset(self.top.anew)
            self.top.anew |= before
            for t in st.targets:
                self.bind(t, v, env)
            self.again = E
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.bind(st.target, self.ev(st.value, env), env)
        elif isinstance(st, ast.AugAssign):
            new = self.ev(st.value, env)
            old = self.ev(st.target, env)
            self.bind(st.target, self.plus(st, old, new) if isinstance(st.op, ast.Add) else join(old, new), env)
        elif isinstance(st, ast.Return):
            self.leave(env, self.ev(st.value, env) if st.value is not None else const(None), st)
            return None
        elif isinstance(st, ast.Raise):
            return None
        elif isinstance(st, (ast.Break, ast.Continue)):
            self.loops[-1][isinstance(st, ast.Break)].append(env)
            return None
        elif isinstance(st, ast.If):
            c = self.cond(st.test, env)
            by = turns(depends(self.ev(st.test, env))) if c is None else E
            a = self.block(st.body, self.fork(env)) if c is not False else None
            b = self.block(st.orelse, self.fork(env)) if c is not True else None
            out = self.merge(a, b)
            if by and a is not None and b is not None:
                for k in out:
                    if k not in ("#sites", "#esc") and a.get(k) != b.get(k):
                        out[k] = marked(out[k], by)
            return out
        elif isinstance(st, (ast.For, ast.AsyncFor, ast.While)):
            return self.loop(st, env)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, env)
            return self.block(st.body, env)
        elif isinstance(st, ast.Try):
            start = self.fork(env)
            out = self.block(st.body + st.orelse, env)
            for h in st.handlers:
                out = self.merge(out, self.block(h.body, self.fork(start)))
            return self.block(st.finalbody, out) if st.finalbody and out is not None else out
        elif isinstance(st, ast.FunctionDef):
            env[st.name] = TOP._replace(const=Closure(FuncInfo(st, self.f.module, None, self.f)), truth=True)
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    env.pop(t.id, None)
        return env

    loops = ()
    inside = ()
    again = E
    anew = frozenset()

    def loop(self, st, env):
        self.loops = list(self.loops)
        out = None
        over = None
        if not isinstance(st, ast.While):
            over = self.iterated(st.iter)
        for turn in range(2):
            self.loops.append(([], []))
            e = self.fork(env if out is None else out)
            if isinstance(st, ast.While):
                self.cond(st.test, e)
            else:
                token = f"#loop:{self.f.qualname}:{st.lineno}:{st.col_offset}"
                self.inside = [t for t in self.inside if t[0] != token] + [(token, self.depth)]
                self.bind(st.target, marked(self.items(self.ev(st.iter, e), st.iter), frozenset([token])), e)
                if over and over[0] in e and isinstance(st.target, (ast.Name, ast.Tuple)):
                    idx = st.target if isinstance(st.target, ast.Name) else st.target.elts[0] if over[1] else None
                    if isinstance(idx, ast.Name):
                        e["#each:" + over[0] + ":" + idx.id] = element(e[over[0]])
            e = self.block(st.body, e)
            if not isinstance(st, ast.While):
                self.inside = self.inside[:-1]
            cont, brk = self.loops.pop()
            for x in cont + brk:
                e = self.merge(e, x)
            if e is None:
                # every way out of the body leaves the function
                return self.block(st.orelse, self.fork(env)) if turn == 0 else out
            for k in [k for k in e if k.startswith("#each:")]:
                c = k.split(":")[1]
                if over and c == over[0] and c in e:
                    e[c] = box(e.pop(k), True)
                elif k not in env:
                    e.pop(k)
            out = e
        return self.block(st.orelse, out)

    @staticmethod
    def iterated(it):
        """(container, is the first part of the target its key) when a loop goes over a whole container"""
        n, first = it, False
        while isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id in ("list", "sorted", "tuple", "enumerate", "range", "len", "reversed") and n.args:
                first = first or n.func.id == "enumerate"
                n = n.args[-1]
            elif isinstance(n.func, ast.Attribute) and n.func.attr in ("keys", "items"):
                first = n.func.attr == "items"
                n = n.func.value
            else:
                return None
        return (n.id, first) if isinstance(n, ast.Name) else None

    def items(self, v, it):
        n = it
        while isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "sorted", "tuple", "reversed") and n.args:
            n = n.args[0]
        return element(v)

    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            old = env.get(t.id)
            gone = everything(old) - (everything(v) - self.again) - env["#esc"] if old is not None else ()
            if gone:
                for k, x in env.items():
                    if gone and k != t.id and not k.startswith("#") and x is not None:
                        gone = gone - everything(x)
                for s in gone & env["#sites"].keys():
                    self.lost.setdefault(s, t)
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if v.parts is not None and len(v.parts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts):
                for x, p in zip(t.elts, v.parts):
                    self.bind(x, p, env)
            else:
                for x in t.elts:
                    self.bind(x.value if isinstance(x, ast.Starred) else x, element(v), env)
        elif isinstance(t, ast.Subscript):
            self.ev(t.slice, env)
            if isinstance(t.value, ast.Name) and t.value.id in env:
                c = t.value.id
                k = "#each:" + c + ":" + t.slice.id if isinstance(t.slice, ast.Name) else None
                if k in env:
                    env[k] = v
                else:
                    old = env[c]
                    env[c] = box(join(inner(old), v), True, old.deps | depends(v))
            else:
                env["#esc"] = env["#esc"] | everything(v)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env)
            if isinstance(t.value, ast.Name) and t.value.id in env and turns(depends(v)):
                env[t.value.id] = marked(env[t.value.id], turns(depends(v)))
            if b.sites:
                i = {"constraint": 0, "run_name": 1, "info_label": 2}.get(t.attr)
                if i is not None:
                    for s in b.sites & env["#sites"].keys():
                        self.set(env, s, i, depends(v))
            else:
                env["#esc"] = env["#esc"] | everything(v)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, env)

    @staticmethod
    def set(env, s, i, deps):
        d = list(env["#sites"][s])
        d[i] = frozenset(deps)
        env["#sites"][s] = tuple(d)

    # ------------------------------------------------------------------ conditions
    def cond(self, n, env):
        """True, False, or None when it cannot be told"""
        if isinstance(n, ast.BoolOp):
            out = isinstance(n.op, ast.And)
            for x in n.values:
                c = self.cond(x, env)
                if c is (not isinstance(n.op, ast.And)):
                    return c
                if c is None:
                    out = None
            return out
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            c = self.cond(n.operand, env)
            return None if c is None else not c
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r, op = n.left, n.comparators[0], n.ops[0]
            if isinstance(l, ast.Constant) and not isinstance(r, ast.Constant):
                l, r = r, l
                op = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(type(op), type(op))()
            size = isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == "len" and len(l.args) == 1
            a, b = self.ev(l.args[0] if size else l, env), self.ev(r, env)
            neg = isinstance(op, (ast.IsNot, ast.NotEq))
            if size and isinstance(b.const, int) and a.truth is not None:
                n0 = {(ast.Gt, 0): a.truth, (ast.GtE, 1): a.truth, (ast.NotEq, 0): a.truth, (ast.Eq, 0): not a.truth, (ast.Lt, 1): not a.truth, (ast.LtE, 0): not a.truth}.get((type(op), b.const))
                if n0 is not None:
                    return n0
            if size:
                return None
            if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and b.const in (None, ""):
                if a.const is not NC and (a.const is None or isinstance(a.const, str)):
                    return (a.const == b.const) != neg
                if a.truth is True:
                    return neg
            return None
        v = self.ev(n, env)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "len":
            return None
        return v.truth

    # ------------------------------------------------------------------ SQL text
    def compose(self, node, pieces):
        """pieces: text, or a value put there"""
        folded = []
        for p in pieces:
            if isinstance(p, str) and folded and isinstance(folded[-1], str):
                folded[-1] += p
            else:
                folded.append(p)
        pieces = folded
        deps, orr, truth, sql, cols = set(), set(), None, False, set()
        depth, quoted = 0, False
        text = ""
        known = all(isinstance(p, str) for p in pieces)
        for i, p in enumerate(pieces):
            if isinstance(p, str):
                for ch in p:
                    if ch == "'":
                        quoted = not quoted
                    elif not quoted:
                        depth += {"(": 1, ")": -1}.get(ch, 0)
                text += p
                if p:
                    truth = True
                if OPERATOR.search(p):
                    sql = True
                continue
            deps |= depends(p)
            cols |= p.cols
            if p.truth:
                truth = True
            sql = sql or p.sql
            if p.orr and not quoted:
                before = text
                after = pieces[i + 1] if i + 1 < len(pieces) and isinstance(pieces[i + 1], str) else ""
                prev, nxt = pieces[i - 1] if i else "", pieces[i + 1] if i + 1 < len(pieces) else ""
                left = AND_END.search(before) or not isinstance(prev, str) and prev.ends
                right = AND_START.search(after) or not isinstance(nxt, str) and nxt.starts
                others = [x for j, x in enumerate(pieces) if j != i and (x.sql or x.orr if not isinstance(x, str) else OPERATOR.search(x))]
                if (left or right) and others:
                    self.badsql(node, p)
                elif depth <= 0 and not (re.search(r"\w\s*$", before) and not re.search(r"\b(where|or)\s*$", before, re.I)):
                    orr |= p.orr
            text += "\0"
        cols |= columns(text)
        if top_or(text) and OPERATOR.search(text):
            orr.add(repr(text[:60]))
            if any(t.startswith("the parameter") or not isinstance(p, str) and p.sql for p in pieces if not isinstance(p, str) for t in p.orr or {""}) and mixed(text):
                self.badsql(node, TOP._replace(orr=frozenset([repr(text.replace("\0", "%s")[:60])])))
        ps = [p for p in pieces if p != ""]
        starts = bool(ps) and (bool(AND_START.search(ps[0])) if isinstance(ps[0], str) else ps[0].starts)
        ends = bool(ps) and (bool(AND_END.search(ps[-1])) if isinstance(ps[-1], str) else ps[-1].ends)
        v = TOP._replace(deps=frozenset(deps), orr=frozenset(orr), truth=truth, sql=sql, starts=starts, ends=ends, cols=frozenset(cols), text=True)
        return v._replace(const=text) if known and pieces else v

    def badsql(self, node, p):
        k = (self.f, node.lineno, node.col_offset)
        if k in self.top.seen_sql:
            return
        self.top.seen_sql.add(k)
        if k in self.res.sqlseen:
            return
        self.res.sqlseen.add(k)
        self.res.add("or-not-enclosed", f"{self.f.relpath}:{self.f.qualname}", short(node), f"joins {', '.join(sorted(p.orr))[:120]} with AND without parentheses around it: an OR inside it takes the rest of the selection with it", node.lineno)

    def plus(self, node, a, b):
        if a.elem is not None or a.parts is not None or b.elem is not None or b.parts is not None:
            return box(join(inner(a), inner(b)), True if a.truth or b.truth else None, a.deps | b.deps)
        f = lambda v: v.const if isinstance(v.const, str) else v
        if isinstance(a.const, (int, float)) or isinstance(b.const, (int, float)):
            return TOP._replace(deps=a.deps | b.deps)
        return self.compose(node, [f(a), f(b)])

    def template(self, node, t, args):
        """'%s' templates"""
        pieces, pos, k = [], 0, 0
        for m in re.finditer(r"%(\((\w+)\))?[-+ #0]*\d*(\.\d+)?([a-zA-Z%])", t):
            pieces.append(t[pos:m.start()])
            pos = m.end()
            if m.group(4) == "%":
                pieces.append("%")
                continue
            v = args[k] if isinstance(args, list) and k < len(args) else element(args) if not isinstance(args, list) else TOP
            k += 1
            pieces.append(TOP._replace(deps=frozenset(depends(v))) if m.group(4) not in "sr" else v.const if isinstance(v.const, str) else v)
        pieces.append(t[pos:])
        return self.compose(node, pieces)

    # ------------------------------------------------------------------ expressions
    def ev(self, n, env):
        self.top.steps += 1
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is not None:
            return m(n, env)
        deps = set()
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                deps |= depends(self.ev(c, env))
        return TOP._replace(deps=frozenset(deps))

    def ev_Constant(self, n, env):
        return const(n.value)

    def ev_Name(self, n, env):
        if n.id in env:
            return env[n.id]
        t = self.module_constant(n.id)
        return t if t is not None else TOP

    def module_constant(self, name):
        for st in self.f.module.tree.body:
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.targets[0].id == name and isinstance(st.value, ast.Constant):
                return const(st.value.value)
        return None

    def ev_Attribute(self, n, env):
        b = self.ev(n.value, env)
        if SELECT.match(n.attr):
            return TOP._replace(deps=b.deps, orr=frozenset([ast.unparse(n)]), sql=True)
        return TOP._replace(deps=frozenset(depends(b)))

    def ev_Starred(self, n, env):
        return self.ev(n.value, env)

    def ev_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        self.bind(n.target, v, env)
        return v

    def ev_IfExp(self, n, env):
        c = self.cond(n.test, env)
        a = self.ev(n.body, env) if c is not False else None
        b = self.ev(n.orelse, env) if c is not True else None
        return join(a, b)

    def ev_BoolOp(self, n, env):
        out = None
        for x in n.values:
            v = self.ev(x, env)
            if isinstance(n.op, ast.Or) and v.truth is True:
                return join(out, v)
            if isinstance(n.op, ast.And) and v.truth is False:
                return join(out, v)
            if isinstance(n.op, ast.Or) and v.truth is False and x is not n.values[-1]:
                continue
            if isinstance(n.op, ast.And) and v.truth is True and x is not n.values[-1]:
                continue
            out = join(out, v)
        return out

    def ev_Tuple(self, n, env):
        if any(isinstance(x, ast.Starred) for x in n.elts):
            return self.ev_List(n, env)
        return TOP._replace(parts=tuple(self.ev(x, env) for x in n.elts), truth=bool(n.elts))

    def ev_List(self, n, env):
        out, deps = None, set()
        for x in n.elts:
            v = self.ev(x, env)
            out = join(out, element(v) if isinstance(x, ast.Starred) else v)
            deps |= depends(v)
        return box(out, bool(n.elts), deps)

    ev_Set = ev_List

    def ev_Dict(self, n, env):
        out = None
        for k, v in zip(n.keys, n.values):
            if k is not None:
                self.ev(k, env)
            x = self.ev(v, env)
            out = join(out, element(x) if k is None else x)
        return box(out, bool(n.keys))

    def comp(self, n, env, value):
        e = self.fork(env)
        for g in n.generators:
            self.bind(g.target, self.items(self.ev(g.iter, e), g.iter), e)
            for c in g.ifs:
                self.cond(c, e)
        v = self.ev(value, e)
        env["#sites"], env["#esc"] = e["#sites"], e["#esc"]
        return box(v, None, depends(v))

    def ev_ListComp(self, n, env):
        return self.comp(n, env, n.elt)

    ev_SetComp = ev_GeneratorExp = ev_ListComp

    def ev_DictComp(self, n, env):
        return self.comp(n, env, n.value)

    def ev_Lambda(self, n, env):
        node = ast.FunctionDef(name="lambda", args=n.args, body=[ast.Return(n.body)], decorator_list=[])
        return TOP._replace(const=Closure(FuncInfo(ast.copy_location(node, n), self.f.module, None, self.f)), truth=True)

    def ev_Subscript(self, n, env):
        b = self.ev(n.value, env)
        i = self.ev(n.slice, env) if not isinstance(n.slice, ast.Slice) else TOP
        if isinstance(n.slice, ast.Slice):
            return b if b.elem is not None or b.parts is not None else b._replace(const=NC, truth=None)
        if isinstance(n.value, ast.Name) and isinstance(n.slice, ast.Name) and "#each:" + n.value.id + ":" + n.slice.id in env:
            return marked(env["#each:" + n.value.id + ":" + n.slice.id], turns(depends(i)))
        if b.parts is not None and isinstance(i.const, int) and not isinstance(i.const, bool) and -len(b.parts) <= i.const < len(b.parts):
            return b.parts[i.const]
        return marked(element(b), turns(depends(i)))

    def ev_JoinedStr(self, n, env):
        pieces = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                pieces.append(str(p.value))
            else:
                v = self.ev(p.value, env)
                fmt = "".join(str(x.value) for x in p.format_spec.values if isinstance(x, ast.Constant)) if p.format_spec is not None else ""
                pieces.append(TOP._replace(deps=frozenset(depends(v))) if fmt[-1:] in tuple("dfgeni") and fmt else v.const if isinstance(v.const, str) else v)
        return self.compose(n, pieces)

    def ev_BinOp(self, n, env):
        a, b = self.ev(n.left, env), self.ev(n.right, env)
        if isinstance(n.op, ast.Add):
            return self.plus(n, a, b)
        if isinstance(n.op, ast.Mod) and isinstance(a.const, str):
            return self.template(n, a.const, list(b.parts) if b.parts is not None else b if b.elem is not None else [b])
        return TOP._replace(deps=frozenset(depends(a) | depends(b)))

    def ev_Compare(self, n, env):
        d = depends(self.ev(n.left, env))
        for c in n.comparators:
            d |= depends(self.ev(c, env))
        return TOP._replace(deps=frozenset(d))

    def ev_Yield(self, n, env):
        if n.value is not None:
            env["#esc"] = env["#esc"] | everything(self.ev(n.value, env))
        return TOP

    def ev_Call(self, n, env):
        fn = n.func
        args = [self.ev(a, env) for a in n.args]
        kws = {k.arg: self.ev(k.value, env) for k in n.keywords}
        star = any(isinstance(a, ast.Starred) for a in n.args)
        name = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else ""
        if isinstance(fn, ast.Name) and fn.id in env and isinstance(env[fn.id].const, Closure):
            g = env[fn.id].const.f
            if not star and self.depth < MAXDEPTH and g.node not in [x.node for x in self.stack_of()]:
                return self.enter(n, g, args, kws, env, {k: v for k, v in env.items() if not k.startswith("#")})
        t = self.b.resolve(self.f.module, fn) if not (isinstance(fn, ast.Name) and fn.id in env) else None
        if isinstance(t, ClassInfo):
            init = self.b.bundle_class(t)
            if init is not None and not star:
                return self.make(n, init, args, kws, env)
        if isinstance(t, FuncInfo) and t.cls is None and not star and self.depth < MAXDEPTH and t not in self.stack_of():
            return self.enter(n, t, args, kws, env)
        if isinstance(fn, ast.Attribute) and not isinstance(t, (ClassInfo, FuncInfo)):
            v = self.method(n, fn, name, args, kws, env)
            if v is not None:
                return v
        if isinstance(fn, ast.Name) and t is None:
            v = self.builtin(name, args, kws)
            if v is not None:
                return v
        if name in ("deepcopy", "copy") and len(args) == 1:
            return args[0]
        deps = set()
        for v in args + list(kws.values()):
            deps |= depends(v)
            env["#esc"] = env["#esc"] | everything(v)
        if isinstance(fn, ast.Attribute):
            deps |= depends(self.ev(fn.value, env))
        return TOP._replace(deps=frozenset(deps))

    def stack_of(self):
        return self.top.stack

    def builtin(self, name, args, kws):
        if name in ("list", "tuple", "sorted", "set", "reversed", "iter"):
            return box(inner(args[0]) if args else None, args[0].truth if args else False)
        if name == "dict":
            out = inner(args[0]) if args else None
            for k, v in kws.items():
                out = join(out, v if k is not None else element(v))
            return box(out)
        if name == "zip":
            return box(TOP._replace(parts=tuple(element(a) for a in args)))
        if name == "enumerate" and args:
            return box(TOP._replace(parts=(TOP, element(args[0]))))
        if name == "str" and args:
            return args[0]
        if name in ("len", "range", "print", "isinstance", "int", "float", "bool", "hasattr", "type"):
            return TOP._replace(deps=frozenset(set().union(*[depends(a) for a in args])) if args else E)
        return None

    def method(self, n, fn, name, args, kws, env):
        b = self.ev(fn.value, env)
        if b.sites and b.elem is None and b.parts is None:
            if name == "set_run_name":
                v = args[0] if args else next(iter(kws.values()), TOP)
                for s in b.sites & env["#sites"].keys():
                    self.set(env, s, 1, depends(v))
            elif not name.startswith("set_"):
                env["#esc"] = env["#esc"] | b.sites
                return TOP._replace(deps=frozenset(depends(b)))
            return TOP
        if name in CONTAINERS and (b.elem is not None or b.parts is not None or isinstance(fn.value, ast.Name) and fn.value.id in env and not b.sql and b.const is NC and not b.deps):
            new = None
            for v in ([args[-1]] if args else []):
                new = join(new, element(v) if name in ("extend", "update") and inner(v) is not None else v if name not in ("extend", "update") else None)
            for v in kws.values():
                new = join(new, v)
            if isinstance(fn.value, ast.Name):
                env[fn.value.id] = box(join(inner(b), new), True, b.deps | (depends(new) if new is not None else E))
            else:
                env["#esc"] = env["#esc"] | set().union(E, *[everything(a) for a in args])
            return TOP
        if b.elem is not None or b.parts is not None:
            if name == "items":
                return box(TOP._replace(parts=(TOP, element(b))))
            if name == "values":
                return box(inner(b))
            if name == "keys":
                return box(TOP)
            if name in ("get", "pop"):
                return element(b)
            if name == "copy":
                return b
        if name == "join" and len(args) == 1 and isinstance(b.const, str):
            if isinstance(n.args[0], (ast.List, ast.Tuple)) and not any(isinstance(x, ast.Starred) for x in n.args[0].elts):
                pieces = []
                for x in n.args[0].elts:
                    v = self.ev(x, env)
                    pieces += [b.const, v.const if isinstance(v.const, str) else v]
                return self.compose(n, pieces[1:])
            x = element(args[0])
            f = x.const if isinstance(x.const, str) else x
            f = f if isinstance(f, str) else f._replace(deps=frozenset(depends(args[0])))
            return self.compose(n, [f, b.const, f])
        if name == "format" and isinstance(b.const, str):
            pieces, pos, k = [], 0, 0
            for m in re.finditer(r"\{(\w*)(:[^}]*)?\}", b.const):
                pieces.append(b.const[pos:m.start()])
                pos = m.end()
                key = m.group(1)
                v = kws.get(key) if key and not key.isdigit() else args[int(key) if key else k] if (int(key) if key else k) < len(args) else None
                k += 1
                v = v if v is not None else TOP
                pieces.append(v.const if isinstance(v.const, str) else v)
            pieces.append(b.const[pos:])
            return self.compose(n, pieces)
        if name in KEEP:
            return b._replace(const=NC, truth=b.truth if name not in ("replace", "strip") else None) if b.elem is None and b.parts is None else b
        return None

    def make(self, n, init, args, kws, env):
        ps = init.params()[1:]
        given = dict(zip(ps, args))
        given.update({k: v for k, v in kws.items() if k})
        s = Site(self.f.relpath, self.f.qualname, n.lineno, short(n))
        key = (s, self.call_chain())
        for token, _ in self.inside if self.f.cls is None else ():
            does = {p for p, v in given.items() if token in depends(v)}
            self.res.loops_seen.add((s, token))
            if "info_label" in does and not does & {"metric", "slicer", "constraint", "stacker_list", "maps_list"}:
                self.res.add("labelled-apart-only", f"{self.f.relpath}:{self.f.qualname}", short(n), "bundles made in this loop have different labels but the same metric, slicer and selection", n.lineno)
            elif not does & {"metric", "constraint", "info_label", "run_name", "file_root"} and not given.get(None):
                self.res.add("same-name-in-loop", f"{self.f.relpath}:{self.f.qualname}", short(n), "every bundle made in this loop has the same name: neither its metric, constraint nor label differs", n.lineno)
        lab, con = given.get("info_label"), given.get("constraint")
        if lab is not None and lab.sql and {c for c, _ in lab.cols} & self.b.schema(self.f.module)[0]:
            self.res.add("label-is-selection", f"{self.f.relpath}:{self.f.qualname}", short(n), "the label of this bundle is an SQL condition", n.lineno)
        if con is not None and con.truth is True and not con.sql and con.elem is None and con.parts is None and (isinstance(con.const, str) or con.text):
            self.res.add("selection-is-no-condition", f"{self.f.relpath}:{self.f.qualname}", short(n), "the constraint of this bundle is a text that compares nothing", n.lineno)
        if "constraint" in given:
            self.check_columns(n, given["constraint"])
        deps = [frozenset(depends(given[p])) if p in given else E for p in ("constraint", "run_name", "info_label")]
        if "info_label" not in given or given["info_label"].const is None:
            deps[2] = deps[0] | {"#built"}
        spread = kws.get(None)
        if spread is not None:
            d = depends(spread)
            deps = [x or frozenset(d) for x in deps]
        if key in env["#sites"]:
            # a bundle made here before, in an earlier turn of a loop, is another one
            self.top.anew.add(key)
        env["#sites"][key] = tuple(deps)
        self.made.add(key)
        self.res.counts_made.add((s.path, s.line))
        return TOP._replace(sites=frozenset([key]), truth=True)

    def check_columns(self, n, v):
        known, band = self.b.schema(self.f.module)
        for name, letter in sorted(v.cols):
            self.res.cols_seen.add(name)
            k = (self.f.relpath, n.lineno, name)
            if k in self.res.cols_told:
                continue
            if known and name not in known:
                self.res.cols_told.add(k)
                self.res.add("selects-unknown-column", f"{self.f.relpath}:{self.f.qualname}", f"{short(n)}: {name}", f"the constraint compares {name!r}, which is not a column of the visit database", n.lineno)
            elif letter and name in ("filter", "band") and band and name != band:
                self.res.cols_told.add(k)
                self.res.add("band-in-wrong-column", f"{self.f.relpath}:{self.f.qualname}", f"{short(n)}: {name}", f"the constraint looks for a band in the column {name!r}; bands are kept in {band!r}", n.lineno)

    chain = ()

    def call_chain(self):
        return self.chain

    def enter(self, n, t, args, kws, env, around=None):
        top = self.top
        if around is None and not self.b.makes_bundles(t) and not any(depends(v) or v.orr or v.sql or everything(v) for v in args + list(kws.values())):
            return TOP
        if top.steps > 400000:
            return TOP
        ps = t.params()
        defaults = t.defaults()
        given = dict(zip(ps, args))
        given.update({k: v for k, v in kws.items() if k})
        for p in t.all_params():
            if p not in given:
                d = defaults.get(p)
                given[p] = const(d.value) if isinstance(d, ast.Constant) else TOP
        given = {**(around or {}), **given}
        sub = Eval(self.b, t, self.res, self)
        sub.top = top
        sub.depth = self.depth + 1
        sub.chain = self.chain + ((n.lineno, n.col_offset),)
        top.stack.append(t)
        v = sub.run(given, env["#sites"], env["#esc"])
        top.stack.pop()
        out = None
        for e, _ in sub.exits:
            out = self.merge(out, {"#sites": e["#sites"], "#esc": e["#esc"]})
        if out is not None:
            env["#sites"], env["#esc"] = out["#sites"], out["#esc"]
        for s in sub.made | {k for k in top.via if k[1][:len(sub.chain)] == sub.chain}:
            top.via.setdefault(s, n) if self.depth else top.via.__setitem__(s, n)
        if self.depth == 0:
            for s in env["#sites"]:
                if s[1][:1] == ((n.lineno, n.col_offset),):
                    top.via[s] = n
        if not self.b.makes_bundles(t):
            # what it built may differ in ways that are not followed
            v = marked(v, turns(set().union(E, *[depends(x) for x in args + list(kws.values())])))
        return v


def start(f, assume, step=False):
    d = f.defaults()
    args = {}
    for p in f.all_params():
        sel = SELECT.match(p)
        v = TOP
        if p in assume:
            v = TOP._replace(deps=frozenset([p]), truth=True)
        elif p in d and isinstance(d[p], ast.Constant) and d[p].value is not None and False:
            v = const(d[p].value)
        if sel and not step:
            v = v._replace(orr=frozenset([f"the parameter {p}"]), sql=True)
        args[p] = v
    return args


def helper(project, f):
    """Whether f is a step of its own module: not offered to anyone else, and called by another function there."""
    exported = f.module.all
    if f.cls is None and not f.name.startswith("_") and (not exported or f.name in exported):
        return False
    return any(isinstance(n, ast.Call) and (n.func.id if isinstance(n.func, ast.Name) else getattr(n.func, "attr", None)) == f.name
               for g in project.all_functions() if g.module is f.module and g is not f for n in ast.walk(g.node))


def check(project, tier):
    res = Result()
    res.sqlseen, res.counts_made, res.cols_seen, res.cols_told, res.loops_seen = set(), set(), set(), set(), set()
    b = Bundles(project)
    KINDS = [(SELECT, 0, "bundle-ignores-selection", "its constraint", "the selection"), (RUN, 1, "bundle-ignores-run-name", "its run name", "the run name"),
             (LABEL, 2, "bundle-ignores-label", "its label", "the label")]
    todo = [f for f in project.all_functions() if not f.relpath.endswith("metric_bundle.py")]
    for f in todo:
        maker = b.makes_bundles(f)
        texty = maker or any(isinstance(n, ast.Constant) and isinstance(n.value, str) and re.search(r"\band\b", n.value, re.I) and len(n.value) < 200 for n in ast.walk(f.node))
        if not texty:
            continue
        res.count("functions_interpreted")
        ps = f.all_params()
        step = helper(project, f)
        assume = {p for p in ps if SELECT.match(p) or RUN.match(p) or LABEL.match(p)} if maker else set()
        ev = Eval(b, f, res)
        ev.stack.append(f)
        ev.run(start(f, assume, step), {}, E)
        if not maker:
            continue
        res.count("functions_making_bundles")
        if step:
            # a step of other functions of its module: judged at its callers
            assume, ps = set(), []
        for s, at in ev.lost.items():
            res.add("bundle-lost", f"{f.relpath}:{f.qualname}", s[0].text, "this bundle is made but neither returned nor used", s[0].line)
        done = set()
        for env, v in ev.exits:
            for key in everything(v) & env["#sites"].keys():
                deps = env["#sites"][key]
                s = key[0]
                for pat, i, rule, what, says in KINDS:
                    want = [p for p in ps if pat.match(p)]
                    for p in want:
                        res.count("obligations")
                        if p in deps[i]:
                            continue
                        if i == 2 and "#built" in deps[2] and not any(SELECT.match(q) for q in ps):
                            continue
                        via = ev.via.get(key)
                        site = (s.line, s.text) if not key[1] else (via.lineno, short(via) + " > " + s.fn) if via is not None else (f.node.lineno, s.fn)
                        if (rule, p, site) in done:
                            continue
                        done.add((rule, p, site))
                        res.add(rule, f"{f.relpath}:{f.qualname}", site[1], f"{says} the caller hands over as {p} does not reach {what}", site[0])
    res.count("bundles", len(res.counts_made))
    res.count("bundles_in_loops", len(res.loops_seen))
    res.count("columns_selected_on", len(res.cols_seen))
    return res
