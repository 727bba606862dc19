"""Databases: what is recorded is committed, the connection is released, and statements and rows use the tables as they are defined."""
import ast
import os
import re
import string

from ..core import Result
from ..flow import S, Flow, expr_key
from ..project import walk_own
from .defassign import functions

USERS = {"read_sql", "read_sql_query", "to_sql", "as_string", "closing", "print"}
WRITES = {"add", "add_all", "delete", "merge", "bulk_save_objects", "bulk_insert_mappings", "bulk_update_mappings"}
READS = {"query", "get", "scalars", "scalar", "stream"}
DML = re.compile(r"^\s*(insert|update|delete|alter|create|drop|replace)\b", re.I)
CLEAN, PENDING, LOST, ASKED = "clean", "pending", "lost", "asked"


# ---------------------------------------------------------------------------------------------- text of statements
def text_of(node, names, depth=0):
    """the statement's text as far as it is written out, or None"""
    if depth > 6:
        return None
    if isinstance(node, ast.Constant) and isinstance(node.value, str):
        return node.value
    if isinstance(node, ast.JoinedStr):
        return "".join(v.value if isinstance(v, ast.Constant) else "{" + expr_key(v.value) + "}" for v in node.values)
    if isinstance(node, ast.Name) and len(names.get(node.id, [])) >= 1:
        ts = [text_of(v, names, depth + 1) for v in names[node.id]]
        return None if any(t is None for t in ts) else max(ts, key=lambda t: bool(DML.match(t)))
    if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Mod)):
        return text_of(node.left, names, depth + 1)
    if isinstance(node, ast.Call):
        f = node.func
        last = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
        if last in ("text", "SQL") and node.args:
            return text_of(node.args[0], names, depth + 1)
        if last in ("format", "strip") and isinstance(f, ast.Attribute):
            return text_of(f.value, names, depth + 1)
    return None


def assigned(fnode):
    out = {}
    for n in walk_own(fnode):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            out.setdefault(n.targets[0].id, []).append(n.value)
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
            out.setdefault(n.target.id, []).append(n.value)
    return out


def word(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        return n.attr
    if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
        return n.slice.value
    if isinstance(n, ast.Call) and len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Name) and n.func.id in ("str", "int", "float", "list", "tuple"):
        return word(n.args[0])
    if isinstance(n, ast.JoinedStr):
        w = [word(x.value) for x in n.values if isinstance(x, ast.FormattedValue)]
        return w[0] if len(w) == 1 else None
    if isinstance(n, ast.FormattedValue):
        return word(n.value)
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
        w = [x for x in (word(n.left), word(n.right)) if x]
        return w[0] if len(w) == 1 else None
    return None


# ---------------------------------------------------------------------------------------------- sessions
class Keeper:
    """the classes that own a session, and what each of their methods does with it"""

    def __init__(self, project):
        self.project = project
        self.classes = {}
        self.memo = {}
        self.busy = set()
        for m in project.modules.values():
            for c in m.classes.values():
                if any(isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == "session" and isinstance(t.value, ast.Name) and t.value.id == "self" for t in n.targets)
                       for f in c.methods.values() for n in ast.walk(f.node)):
                    self.classes[c.name] = (m, c)

    def effect(self, cname, meth, state):
        """states a method may leave behind, entered in the given one"""
        m, c = self.classes[cname]
        f = c.methods.get(meth)
        if f is None:
            return {state}
        k = (cname, meth, state)
        if k in self.memo:
            return self.memo[k]
        if k in self.busy or len(self.busy) > 12:
            return {state}
        self.busy.add(k)
        p = Sessions(self, m, f.node, cname, lambda *a: None)
        p.run((("self",) + state,))
        out = {next((x[1:] for x in s.data if x[0] == "self"), state) for kind, s, _ in p.exits if kind in ("fall", "return")}
        if state[1] == CLEAN:
            out = {("closed", CLEAN) if x[0] == "closed" else x for x in out}    # what was lost is reported there
        self.busy.discard(k)
        self.memo[k] = out or {state}
        return self.memo[k]


class Sessions(Flow):
    """data: sorted tuple of (object, 'open'|'closed', what is waiting to be committed)"""

    def __init__(self, keeper, module, fnode, cname, report):
        super().__init__(fnode)
        self.k, self.m, self.cname, self.report = keeper, module, cname, report
        self.names = assigned(fnode)
        self.alias = {}
        for n, vals in self.names.items():
            if vals and all(isinstance(v, ast.Attribute) and v.attr == "session" for v in vals):
                self.alias[n] = expr_key(vals[0].value)
        self.made = {}
        self.ops = 0
        a = fnode.args
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} if not isinstance(fnode, ast.Lambda) else set()

    def join(self, a, b):
        return tuple(sorted(set(a) | set(b)))

    def get(self, data, obj):
        return next((x[1:] for x in data if x[0] == obj), None)

    def put(self, data, obj, st):
        return tuple(sorted([x for x in data if x[0] != obj] + ([(obj,) + st] if st else [])))

    def holder(self, node):
        """the object whose session (or connection) an expression is"""
        if isinstance(node, ast.Attribute) and node.attr == "session":
            return expr_key(node.value)
        if isinstance(node, ast.Name):
            return self.alias.get(node.id) or (node.id if self.made.get(node.id) in ("connection", "pooled connection") else None)
        return None

    def expr(self, node, s):
        states = [s]
        for n in sorted((x for x in ast.walk(node) if isinstance(x, ast.Call)), key=lambda x: (getattr(x, "end_lineno", 0) or 0, getattr(x, "end_col_offset", 0) or 0)):
            nxt = []
            for x in states:
                nxt += self.call(n, x)
            states = nxt
        return self.squash(states)

    def call(self, n, s):
        f = n.func
        if not isinstance(f, ast.Attribute):
            # handing an object over ends what is known about it
            return [self.escape(n, s)]
        h = self.holder(f.value)
        cur = self.get(s.data, h) if h else None
        if cur is not None:
            self.ops += 1
            op, (state, pend) = f.attr, cur
            if op == "execute" and n.args and re.match(r"\s*commit\b", text_of(n.args[0], self.names) or "", re.I):
                op = "commit"
            if op == "execute" and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id in self.params and "commit" in self.params:
                return [S(s.facts, self.put(s.data, h, (state, ASKED)))]
            if op in WRITES or op == "execute" and n.args and self.changes(n.args[0], s):
                if state == "closed":
                    self.report("session-not-open", n, f"{h}.session", "records something although the session was closed before on this path")
                return [S(s.facts, self.put(s.data, h, (state, PENDING)))]
            if op in READS or op == "execute":
                if state == "closed":
                    self.report("session-not-open", n, f"{h}.session", "queries the database although the session was closed before on this path")
                return [S(s.facts, self.put(s.data, h, (state, pend)))]
            if op == "commit":
                # the statement may fail: what was pending then still is
                return [S(s.facts, self.put(s.data, h, (state, LOST if pend == LOST else CLEAN)))]
            if op == "rollback":
                lost = pend == PENDING or pend == ASKED and s.facts.get("commit", ("", None))[1] is not False
                return [S(s.facts, self.put(s.data, h, (state, LOST if lost else CLEAN if pend == ASKED else pend)))]
            if op == "close":
                return [S(s.facts, self.put(s.data, h, ("closed", pend)))]     # judged where the function ends
            return [s]
        b = f.value
        if f.attr == "putconn" and n.args and isinstance(n.args[0], ast.Name) and self.get(s.data, n.args[0].id):
            obj = n.args[0].id
            state, pend = self.get(s.data, obj)
            return [S(s.facts, self.put(s.data, obj, ("closed", pend)))]
        if isinstance(b, ast.Name):
            cname = self.cname if b.id == "self" else self.made.get(b.id)
            cur = self.get(s.data, b.id)
            if cname and cur is not None and cname in self.k.classes and f.attr in self.k.classes[cname][1].methods:
                outs = self.k.effect(cname, f.attr, cur)
                return [S(s.facts, self.put(s.data, b.id, o)) for o in sorted(outs)]
        return [self.escape(n, s)]

    def changes(self, q, s):
        """is this a statement that changes the database?"""
        if isinstance(q, ast.Name):
            known = self.get(s.data, "#" + q.id)
            return bool(known and known[0] == "dml")
        return bool(DML.match(text_of(q, self.names) or ""))

    def _generic(self, test, s):
        if isinstance(test, ast.Name) and self.made.get(test.id) and self.get(s.data, test.id):
            return [(s, True)]      # a connection that was obtained is one
        return super()._generic(test, s)

    def _atom(self, test, s):
        if isinstance(test, ast.Compare) and isinstance(test.left, ast.Name) and self.made.get(test.left.id) and self.get(s.data, test.left.id) \
                and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            return [(s, isinstance(test.ops[0], (ast.IsNot, ast.NotEq)))]
        return super()._atom(test, s)

    def enter(self, item, states):
        e, v = item.context_expr, item.optional_vars
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "cursor" and isinstance(e.func.value, ast.Name) \
                and self.made.get(e.func.value.id) and isinstance(v, ast.Name):
            self.alias[v.id] = e.func.value.id
        return states

    def escape(self, n, s):
        data = s.data
        if (n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")) in USERS:
            return s
        for a in list(n.args) + [k.value for k in n.keywords]:
            if isinstance(a, ast.Name) and a.id != "self" and self.get(data, a.id) is not None:
                data = self.put(data, a.id, None)
        return S(s.facts, data)

    def bind(self, target, s, value=None):
        data = s.data
        if isinstance(target, ast.Attribute) and target.attr == "session":
            h = expr_key(target.value)
            if isinstance(value, ast.Call) and h == "self":
                cur = self.get(data, h)
                if cur and cur[1] == PENDING:
                    self.report("not-committed", value, h, "a new session is started while what was recorded in the old one has not been committed: the record is lost")
                return [S(s.facts, self.put(data, h, ("open", CLEAN)))]
        if isinstance(target, ast.Name) and value is not None:
            data = self.put(data, "#" + target.id, ("dml" if self.changes(value, s) else "read", ""))
            s = S(s.facts, data)
        if isinstance(target, ast.Name) and isinstance(value, ast.Call):
            c = value.func.attr if isinstance(value.func, ast.Attribute) else value.func.id if isinstance(value.func, ast.Name) else None
            if c in ("connect", "getconn") and (c == "getconn" or expr_key(value.func).startswith("sqlite3.")):
                self.made[target.id] = "pooled connection" if c == "getconn" else "connection"
                return [S(s.facts, self.put(data, target.id, ("open", CLEAN)))]
            if c == "cursor" and isinstance(value.func.value, ast.Name) and self.made.get(value.func.value.id):
                self.alias[target.id] = value.func.value.id
                return [S(s.facts, data)]
            if c in self.k.classes:
                self.made[target.id] = c
                outs = self.k.effect(c, "__init__", ("closed", CLEAN))
                return [S(s.facts, self.put(data, target.id, o)) for o in sorted(outs)]
        if value is not None and not isinstance(target, ast.Name):
            for x in ast.walk(value):
                if isinstance(x, ast.Name) and x.id != "self" and self.get(data, x.id) is not None:
                    data = self.put(data, x.id, None)
        return [S(s.facts, data)]


def closes(fnode, obj):
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "close" and expr_key(n.func.value) == obj for n in walk_own(fnode))


def check_sessions(project, tier):
    res = Result()
    k = Keeper(project)
    res.count("session_classes", len(k.classes))
    done = set()

    def reporter(m, q):
        def report(rule, node, what, msg):
            key = (q, rule, what)
            if key not in done:
                done.add(key)
                res.add(rule, f"{m.relpath}:{q}", what, msg, getattr(node, "lineno", None))
        return report
    for cname, (m, c) in k.classes.items():
        init = k.effect(cname, "__init__", ("closed", CLEAN))
        called = {n.func.attr for f in c.methods.values() for n in ast.walk(f.node)
                  if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self"}
        for name, f in c.methods.items():
            direct = any(isinstance(n, ast.Attribute) and n.attr == "session" for n in ast.walk(f.node)) or \
                any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" for n in ast.walk(f.node))
            if not direct or "staticmethod" in [expr_key(d) for d in f.node.decorator_list]:
                continue
            report = reporter(m, f"{c.name}.{name}")
            for st in sorted(init if name != "__init__" else {("closed", CLEAN)}):
                if name in called and name != "__init__":
                    continue    # a step of other methods, judged where it is used (open, close, helpers)
                p = Sessions(k, m, f.node, cname, report)
                p.run((("self",) + st,))
                res.count("methods_with_session")
                res.count("session_operations", p.ops)
                for kind, s, node in p.exits:
                    if kind not in ("fall", "return"):
                        continue
                    cur = p.get(s.data, "self")
                    if cur is None:
                        continue
                    if cur[1] in (PENDING, ASKED):
                        report("not-committed", node, "self", "ends normally with something recorded in the session that has not been committed")
                    elif cur[1] == LOST:
                        report("record-lost", node, "self", "what was recorded was rolled back and is not recorded again, yet the operation ends normally")
                    if st[0] == "closed" and cur[0] == "open" and name not in ("__init__", "__enter__", "open"):
                        report("session-left-open", node, "self", "one way through the method returns without closing the session it opened")
    for m, q, fnode in functions(project):
        if not any(isinstance(n, ast.Call) and (n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", None)) in {"connect", "getconn", *k.classes} for n in walk_own(fnode)):
            continue
        report = reporter(m, q)
        p = Sessions(k, m, fnode, None, report)
        p.run(())
        res.count("functions_using_databases")
        returned = {x.id for n in walk_own(fnode) if isinstance(n, (ast.Return, ast.Yield)) and n.value is not None for x in ast.walk(n.value) if isinstance(x, ast.Name)}
        for kind, s, node in p.exits:
            if kind not in ("fall", "return"):
                continue
            for obj, state, pend in s.data:
                if obj in returned or obj[0] == "#":
                    continue
                if pend == ASKED and s.facts.get("commit", ("", None))[1] is False:
                    pend = CLEAN
                if pend != CLEAN:
                    report("not-committed", node, obj, "ends normally with something recorded that has not been committed")
                elif state == "open" and (p.made.get(obj) != "connection" or not closes(fnode, obj)):
                    report("session-left-open", node, obj, f"{p.made.get(obj)} {obj!r} is opened here, but one way through the function ends without closing it")
    for m, q, fnode in functions(project):
        for n in walk_own(fnode):
            if isinstance(n, ast.Call) and expr_key(n.func).split(".")[-1] == "create_engine":
                c = next((k.value for k in n.keywords if k.arg == "creator"), None)
                if isinstance(c, ast.Attribute) and c.attr == "getconn":
                    res.count("engines_over_pools")
                    if not kept(fnode, n):
                        report = reporter(m, q)
                        report("session-left-open", n, expr_key(c), "every call makes an engine that takes connections out of the pool and never puts them back: the pool runs dry")
    res.guard("session_classes", 2)
    return res


def kept(fnode, call):
    """the engine made here is kept on the object"""
    for n in walk_own(fnode):
        if isinstance(n, ast.Assign) and any(x is call for x in ast.walk(n.value)):
            if any(isinstance(t, ast.Attribute) for t in n.targets):
                return True
            names = {t.id for t in n.targets if isinstance(t, ast.Name)}
            return any(isinstance(k, ast.Assign) and isinstance(k.value, ast.Name) and k.value.id in names and any(isinstance(t, ast.Attribute) for t in k.targets) for k in walk_own(fnode))
        if isinstance(n, ast.Return) and n.value is not None and any(x is call for x in ast.walk(n.value)):
            return True
    return False


# ---------------------------------------------------------------------------------------------- the archive's schema
def schema(project):
    """{table or view: set of columns} as the schema file of the repository creates them"""
    path = os.path.join(project.repo, "sql", "make_vseqmeta.sql")
    if not os.path.isfile(path):
        return None
    src = re.sub(r"--[^\n]*", "", open(path).read())
    out = {}
    for m in re.finditer(r"CREATE TABLE (\w+)\s*\((.*?)\)\s*(?:INHERITS\s*\((\w+)\))?\s*;", src, re.S | re.I):
        cols = set()
        for part in top_split(m.group(2)):
            w = part.split()
            if w and w[0].upper() not in ("PRIMARY", "FOREIGN", "UNIQUE", "CONSTRAINT", "CHECK"):
                cols.add(w[0].lower())
        out[m.group(1)] = cols | out.get(m.group(3), set())
    for m in re.finditer(r"CREATE VIEW (\w+) AS\s*\(?\s*SELECT\s(.*?)\sFROM\s", src, re.S | re.I):
        body = src[m.start(2):]
        sel = select_list(body)
        cols = set()
        for part in top_split(sel):
            a = re.search(r"\bAS\s+(\w+)\s*$", part, re.I)
            w = re.search(r"([\w*]+)\s*$", part)
            cols.add((a or w).group(1).lower() if (a or w) else "*")
        if "*" in cols:
            star = re.search(r"(\w+)\.\*", sel)
            t = star and re.search(r"(?:FROM|JOIN)\s+(\w+)\s+AS\s+%s\b" % star.group(1), body, re.I)
            cols = cols - {"*"} | out.get(t.group(1), set()) if t else {"*"}
        out[m.group(1)] = cols
    return out


def top_split(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch in "([{":
            depth += 1
        elif ch in ")]}":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return [x for x in out + [cur.strip()] if x]


def select_list(body):
    """text up to the FROM that belongs to this SELECT"""
    depth = 0
    for m in re.finditer(r"[()]|\bFROM\b", body, re.I):
        t = m.group(0)
        if t == "(":
            depth += 1
        elif t == ")":
            depth -= 1
        elif depth == 0:
            return body[:m.start()]
    return body


# ---------------------------------------------------------------------------------------------- statements with parameters
class Statements(Flow):
    """data: sorted tuple of (name, value); values are nested tuples describing texts, statements, lists and tables of parameters"""

    STATES = 160

    def __init__(self, fnode, report, cols, count):
        super().__init__(fnode)
        a = fnode.args
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} - {"self", "cls"}
        self.report, self.cols, self.count = report, cols, count
        self.every = set().union(*cols.values()) - {"*"} if cols else set()
        self.local_defs = {n.name: n for n in ast.walk(fnode) if isinstance(n, ast.FunctionDef) and n is not fnode}

    def join(self, a, b):
        return tuple(x for x in a if x in b)

    def val(self, e, env, depth=0):
        if depth > 12 or e is None:
            return None
        v = lambda x: self.val(x, env, depth + 1)  # noqa: E731
        if isinstance(e, ast.Constant):
            return ("text", e.value) if isinstance(e.value, str) else ("const", e.value)
        if isinstance(e, ast.Name):
            return env.get(e.id) or ("expr", e.id)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = v(e.left), v(e.right)
            if a and b and a[0] == b[0] and a[0] in ("text", "list", "params"):
                return (a[0], a[1] + b[1])
            return None
        if isinstance(e, ast.List):
            return ("list", tuple(v(x) or ("expr", expr_key(x)) for x in e.elts)) if not any(isinstance(x, ast.Starred) for x in e.elts) else None
        if isinstance(e, ast.Tuple):
            return ("params", tuple(expr_key(x) for x in e.elts)) if not any(isinstance(x, ast.Starred) for x in e.elts) else None
        if isinstance(e, ast.Dict):
            if all(isinstance(k, ast.Constant) for k in e.keys):
                return ("table", tuple((k.value, expr_key(x)) for k, x in zip(e.keys, e.values)))
            return None
        if isinstance(e, ast.Attribute):
            return ("expr", expr_key(e))
        if isinstance(e, ast.Call):
            f = e.func
            name = expr_key(f)
            last = name.split(".")[-1]
            if last == "SQL" and len(e.args) == 1:
                t = v(e.args[0])
                return ("sql", t[1], None) if t and t[0] == "text" else None
            if last == "Identifier":
                ps = [v(a) for a in e.args]
                return ("ident", ".".join(p[1] if p and p[0] == "text" else "?" for p in ps), expr_key(e.args[0]) if e.args else "")
            if last == "Placeholder":
                p = v(e.args[0]) if e.args else ("text", "")
                return ("place", p[1] if p and p[0] == "text" else "?")
            if isinstance(f, ast.Attribute) and last in ("format", "join"):
                b = v(f.value)
                if b and b[0] == "sql" and last == "format":
                    if any(isinstance(a, ast.Starred) for a in e.args):
                        l = v(e.args[0].value) if len(e.args) == 1 else None
                        return ("sql", b[1], l[1]) if l and l[0] == "list" else None
                    if e.keywords:
                        return None
                    args = tuple(v(a) or ("expr", expr_key(a)) for a in e.args)
                    n = holes(b[1])
                    if n is not None and n != len(args):
                        self.report("statement-parameters", e, b[1].split("\n")[0][:60], f"the statement has {n} places to fill, but is given {len(args)} parts")
                        return None
                    return ("sql", b[1], args)
                if b and b[0] == "sql" and last == "join" and e.args:
                    l = v(e.args[0])
                    return ("join", b[1], l[1]) if l and l[0] == "list" else None
                if b and b[0] == "text" and last == "format":
                    return None
            if isinstance(f, ast.Name) and f.id in self.local_defs:
                d = self.local_defs[f.id]
                inner = dict(env)
                for p, a in zip(d.args.args, e.args):
                    inner[p.arg] = v(a) or ("expr", expr_key(a))
                for st in d.body:
                    if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
                        inner[st.targets[0].id] = self.val(st.value, inner, depth + 1)
                    elif isinstance(st, ast.Return):
                        return self.val(st.value, inner, depth + 1)
            if last in ("tuple", "list") and not e.args:
                return ("params" if last == "tuple" else "list", ())
            if last in ("tuple", "list") and len(e.args) == 1:
                return v(e.args[0])
        return None

    def bind(self, target, s, value=None):
        env = dict(s.data)
        if isinstance(target, ast.Name):
            r = self.val(value, env)
            env.pop(target.id, None)
            if r is not None:
                env[target.id] = r
        elif isinstance(target, ast.Subscript) and isinstance(target.value, ast.Name) and target.value.id in env:
            t = env[target.value.id]
            if t[0] == "table" and isinstance(target.slice, ast.Constant) and value is not None:
                w = word(value)
                if self.cols and target.slice.value in self.every and w in self.every and not target.slice.value.endswith(w):
                    self.report("column-mixup", target, f"{target.slice.value}={expr_key(value)}"[:70], f"column {target.slice.value!r} receives {expr_key(value)!r}, which is called after another column")
                env[target.value.id] = ("table", tuple(x for x in t[1] if x[0] != target.slice.value) + ((target.slice.value, expr_key(value)),))
            else:
                env.pop(target.value.id)
        else:
            for x in ast.walk(target):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    env.pop(x.id, None)
        return [S(s.facts, tuple(sorted(env.items(), key=repr)))]

    def do_AugAssign(self, st, states):
        if isinstance(st.target, ast.Name) and isinstance(st.op, ast.Add):
            o = self.new()
            for s in self.exprs([st.value], states):
                env = dict(s.data)
                a, b = env.pop(st.target.id, None), self.val(st.value, env)
                if a and b and a[0] == b[0] and a[0] in ("text", "list", "params"):
                    env[st.target.id] = (a[0], a[1] + b[1])
                o["next"].append(S(s.facts, tuple(sorted(env.items(), key=repr))))
            return o
        return super().do_AugAssign(st, states)

    def expr(self, node, s):
        env = dict(s.data)
        for n in ast.walk(node):
            if not isinstance(n, ast.Call) or not isinstance(n.func, ast.Attribute):
                continue
            b = n.func.value
            if isinstance(b, ast.Name) and b.id in env:
                t = env[b.id]
                if n.func.attr == "append" and t[0] == "list" and n.args:
                    env[b.id] = ("list", t[1] + (self.val(n.args[0], env) or ("expr", expr_key(n.args[0])),))
                elif n.func.attr == "extend" and t[0] == "list" and n.args:
                    l = self.val(n.args[0], env)
                    if l and l[0] in ("list",):
                        env[b.id] = ("list", t[1] + l[1])
                    else:
                        env.pop(b.id)
                elif n.func.attr in ("update", "pop", "insert", "remove", "clear", "setdefault") and t[0] in ("table", "list"):
                    env.pop(b.id)
            self.now = s
            self.use(n, env)
        return [S(s.facts, tuple(sorted(env.items(), key=repr)))]

    # ------------------------------------------------------------------ where a statement is sent
    def use(self, n, env):
        a = {i: x for i, x in enumerate(n.args)}
        kw = {k.arg: k.value for k in n.keywords}
        op = n.func.attr
        if op == "pd_read_sql":
            t, parts, ps = (self.val(a.get(i, kw.get(k)), env) for i, k in enumerate(("query_template", "sql_params", "query_params")))
            if not t or t[0] != "text":
                return
            q = ("sql", t[1], parts[1] if parts and parts[0] == "list" else None if parts else ())
            if q[2] is not None:
                k = holes(t[1])
                if k is not None and k != len(q[2]):
                    self.report("statement-parameters", n, headline(t[1]), f"the statement has {k} places to fill, but is given {len(q[2])} parts")
                    return
            self.statement(n, q, ps if ps or (1 not in a and "query_params" in kw) else ps, "positional", False, True)
            return
        if op not in ("query", "execute") or not (a or kw):
            return
        q = self.val(a.get(0, kw.get("query")), env)
        if not q or q[0] not in ("sql", "text"):
            return
        if q[0] == "text":
            q = ("sql", q[1], ())
        d = self.val(a.get(1, kw.get("data")), env) if (1 in a or "data" in kw) else ("table", ())
        if op == "query" and isinstance(n.func.value, ast.Name) and n.func.value.id == "self":
            commit, ret = a.get(2, kw.get("commit")), a.get(3, kw.get("return_result"))
            commit = commit.value if isinstance(commit, ast.Constant) else False if commit is None else None
            ret = ret.value if isinstance(ret, ast.Constant) else True if ret is None else None
            text = flat(q)
            dml = bool(DML.match(text))
            if dml and commit is False:
                self.report("not-committed", n, headline(text), "this statement changes the database, but it is sent without being committed: the change is rolled back")
            if ret is True and dml and "RETURNING" not in text.upper():
                self.report("no-rows", n, headline(text), "rows are fetched from a statement that returns none")
            self.statement(n, q, d, "named", True, True)
        elif op == "execute":
            self.statement(n, q, d, "named", True, False)

    def statement(self, n, q, d, style, named, _):
        text = flat(q)
        self.count("statements_checked")
        if named:
            used = set(re.findall(r":⟦(\w+)⟧", text)) | set(re.findall(r"%\((\w+)\)s", text))
            if d is not None and d[0] == "table":
                have = {k for k, _v in d[1]}
                for k in sorted(used - have):
                    self.report("statement-parameters", n, headline(text), f"the statement takes a parameter {k!r}, which is not given")
                for k in sorted(have - used):
                    self.report("statement-parameters", n, headline(text), f"a parameter {k!r} is given that the statement does not take: the value is not recorded")
        else:
            marks = re.findall(r"%.", re.sub(r"%%", "", text) + " ", re.S)
            bad = [x for x in marks if x != "%s"]
            if bad:
                self.report("statement-parameters", n, headline(text), f"the text has a stray {bad[0].strip()!r} where a parameter should be (%s)")
            elif d is not None and d[0] == "params" and len(marks) != len(d[1]):
                self.report("statement-parameters", n, headline(text), f"the statement takes {len(marks)} parameters, but {len(d[1])} are given")
            elif d is not None and d[0] == "params":
                self.positional(n, text, d[1])
        self.columns(n, text, d)
        self.narrowing(n, text, d, self.now)

    def tables(self, text):
        out = []
        for m in re.finditer(r"\b(?:FROM|JOIN|INTO|UPDATE)\s+(?:\?[\w.]*\.)?([\w?]+)(?:\s+(?:AS\s+)?(?!SET\b|WHERE\b|LEFT\b|ON\b|JOIN\b|GROUP\b|VALUES\b)(\w+))?", text, re.I):
            if m.group(1).lower() in ("information_schema", "pg_catalog"):
                continue
            out.append((m.group(1), m.group(2)))
        return out

    def columns(self, n, text, d):
        if self.cols is None:
            return
        ctes = set(re.findall(r"(?:WITH|,)\s+(\w+)\s+AS\s*\(", text, re.I))
        tabs = [t for t, _a in self.tables(text) if t not in ctes]
        for t in tabs:
            if t != "?" and t not in self.cols:
                self.report("unknown-table", n, t, f"the statement names table {t!r}, which the schema does not create")
                return
        known = set().union(*[self.cols[t] for t in tabs if t != "?"]) if tabs and "?" not in tabs else set().union(*[c for t, c in self.cols.items() if t in ("visitseq", "simulations", "completed", "mixedvisitseq")], *[self.cols[t] for t in tabs if t != "?"])
        if "*" in known or not tabs:
            return
        self.count("statements_against_schema")
        vals = dict(d[1]) if d is not None and d[0] == "table" else {}
        pairs = re.findall(r"(?<![\w.'])(?:\w+\.)?(\w+)\s*=\s*:⟦(\w+)⟧", text)
        m = re.search(r"INSERT\s+INTO\s+[\w.?]+\s*\(([^)]*)\)\s*VALUES\s*\(([^)]*)\)", text, re.I | re.S)
        if m:
            cs, vs = [x.strip() for x in m.group(1).split(",")], [x.strip() for x in m.group(2).split(",")]
            if len(cs) != len(vs):
                self.report("statement-parameters", n, headline(text), f"{len(cs)} columns are named, but {len(vs)} values are given")
            pairs += [(c, v[2:-1]) for c, v in zip(cs, vs) if v.startswith(":⟦")]
            for c in cs:
                if c != "?" and c.lower() not in known:
                    self.report("unknown-column", n, c, f"the statement names column {c!r}, which {' or '.join(t for t in tabs)} does not have")
        for c, p in pairs:
            if c == "?" or c.startswith("?"):
                continue
            if c.lower() not in known:
                self.report("unknown-column", n, c, f"the statement names column {c!r}, which {' or '.join(t for t in tabs)} does not have")
            elif p.lower() != c.lower() and p.lower() in known:
                self.report("column-mixup", n, f"{c}={p}", f"column {c!r} is set to, or compared with, the parameter called {p!r}")
            elif p in vals:
                x = re.findall(r"[A-Za-z_]\w*", vals[p])
                x = x[-1] if x else ""
                names = set(re.findall(r"[A-Za-z_]\w*", vals[p]))
                if c.lower() not in names and p not in names and x.lower() in known and x.lower() != c.lower():
                    self.report("column-mixup", n, f"{c}={vals[p]}"[:70], f"column {c!r} receives {vals[p]!r}, which is called after another column")
        body = re.sub(r"'[^']*'", "''", text)
        sel = re.match(r"\s*SELECT\s+(.*?)\s+FROM\b", body, re.S | re.I)
        if sel and not ctes:
            for part in top_split(sel.group(1)):
                w = re.fullmatch(r"(?:\w+\.)?(\w+)", part)
                if w and w.group(1).lower() not in known:
                    self.report("unknown-column", n, w.group(1), f"the statement selects column {w.group(1)!r}, which {' or '.join(tabs)} does not have")

    def narrowing(self, n, text, d, s):
        """what the caller gives to pick out rows is handed to the statement"""
        if d is None or self.cols is None or s is None:
            return
        tabs = [t for t, _a in self.tables(text)]
        if len(tabs) != 1 or tabs[0] not in self.cols or not re.match(r"\s*(SELECT|DELETE|UPDATE)\b", text, re.I) or "?" in text.upper().split("WHERE")[-1]:
            return
        given = {x for item in d[1] for x in re.findall(r"[A-Za-z_]\w*", item if isinstance(item, str) else item[1])}
        given, elsewhere = self.sources(given)
        for p in sorted((self.params & self.cols[tabs[0]]) - elsewhere):
            self.count("criteria_of_statements")
            if any(p in self.deps.get(k, ()) and v[0] in ("truth", "eq") and not v[1] for k, v in s.facts.items()):
                continue  # asked for only when there is something to pick out by
            if p not in given and self._know(s, p, None) is not True:
                self.report("criteria-dropped", n, p, f"the statement does without {p!r}, which the caller gives")
        m = re.match(r"get_(\w+)$", self.fnode.name)
        sel = re.match(r"\s*SELECT\s+(\w+)\s+FROM\b", text, re.I)
        if m and sel and m.group(1) in self.every and sel.group(1).lower() in self.cols[tabs[0]] and not m.group(1).endswith(sel.group(1).lower()) and m.group(1) != sel.group(1).lower() \
                and m.group(1) in self.cols[tabs[0]]:
            self.report("column-mixup", n, sel.group(1), f"{self.fnode.name} asks for column {sel.group(1)!r}")

    def sources(self, given):
        """names the values come from, and parameters that are handed on to other calls"""
        if self.feeds is None:
            self.feeds, self.handed = {}, set()
            for x in walk_own(self.fnode):
                ts, v = [], None
                if isinstance(x, ast.Assign):
                    ts, v = x.targets, x.value
                elif isinstance(x, (ast.AnnAssign, ast.AugAssign)):
                    ts, v = [x.target], x.value
                elif isinstance(x, (ast.For, ast.comprehension)):
                    ts, v = [x.target], x.iter
                elif isinstance(x, ast.Match):
                    continue
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "self" and x.func.attr not in ("query", "pd_read_sql"):
                    if not x.func.attr.startswith(("is_", "_find", "get_")):
                        self.handed |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name)}
                for t in ts:
                    for y in ast.walk(t):
                        if isinstance(y, ast.Name) and v is not None:
                            self.feeds.setdefault(y.id, set()).update(z.id for z in ast.walk(v) if isinstance(z, ast.Name))
        todo, out = list(given), set()
        while todo:
            g = todo.pop()
            if g not in out:
                out.add(g)
                todo += list(self.feeds.get(g, ()))
        return out, self.handed

    feeds = None

    def positional(self, n, text, params):
        """columns compared with the k-th parameter"""
        if self.cols is None:
            return
        tabs = [t for t, _a in self.tables(text) if t in self.cols]
        known = set().union(*[self.cols[t] for t in tabs]) if tabs else set()
        i = 0
        for m in re.finditer(r"%s", re.sub(r"%%", "  ", text)):
            before = text[:m.start()]
            c = re.search(r"(?:\w+\.)?(\w+)\s*(?:=|@>|<|>|<=|>=)\s*$", before)
            after = re.match(r"%s\s*=\s*(\w+)\b(?!\s*\()", text[m.start():])
            col = c.group(1).lower() if c else after.group(1).lower() if after else None
            p = params[i].split(".")[-1].lower()
            i += 1
            if col and tabs and len(tabs) == len(self.tables(text)) and "*" not in known and col not in known and not col.isdigit():
                self.report("unknown-column", n, col, f"the statement names column {col!r}, which {' or '.join(tabs)} does not have")
            if col in known and p in known and p != col:
                self.report("column-mixup", n, f"{col}={p}", f"column {col!r} is compared with the parameter called {p!r}")


def headline(t):
    return re.sub(r"\s+", " ", re.sub(r"[⟦⟧]", "", t)).strip()[:60]


def holes(t):
    try:
        return sum(f is not None for _a, f, _b, _c in string.Formatter().parse(t))
    except ValueError:
        return None


def flat(q):
    """text of a composed statement; identifiers that are computed show as ?, named parameters as :⟦name⟧"""
    if q[0] == "text":
        return q[1]
    if q[0] == "ident":
        return q[1] if "?" not in q[1] else "?"
    if q[0] == "place":
        return f":⟦{q[1]}⟧"
    if q[0] == "join":
        return q[1].join(flat(x) for x in q[2])
    if q[0] == "sql":
        if not q[2]:
            return q[1] if q[2] == () or q[2] is None else q[1]
        out, i = "", 0
        for lit, field, _s, _c in string.Formatter().parse(q[1]):
            out += lit
            if field is not None:
                out += flat(q[2][i]) if i < len(q[2]) else "?"
                i += 1
        return out
    return "?"


def check_statements(project, tier):
    res = Result()
    cols = schema(project)
    res.count("schema_tables", len(cols or ()))
    seen = set()
    for m, q, fnode in functions(project):
        if not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("pd_read_sql", "SQL", "getconn") for n in walk_own(fnode)):
            continue

        def report(rule, node, what, msg):
            k = (q, rule, what, msg)
            if k not in seen:
                seen.add(k)
                res.add(rule, f"{m.relpath}:{q}", what, msg, getattr(node, "lineno", None))
        p = Statements(fnode, report, cols, res.count)
        p.run(())
        res.count("functions_with_statements")
    return res
