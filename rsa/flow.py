"""Structured, path-sensitive walk of one function body.

States are disjuncts: (facts, data).  `facts` relate branch conditions that recur in the function (so that
`if a: x = 1 ... if a: use(x)` is seen as one path, not two); `data` belongs to the client.
"""
import ast
import operator

ORDER = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}
MAXSTATES = 48
_FALSY = (None, False, 0, "", ())


class S:
    __slots__ = ("facts", "data")

    def __init__(self, facts, data):
        self.facts, self.data = facts, data

    def key(self):
        return (tuple(sorted((k, repr(v)) for k, v in self.facts.items())), self.data)


_KEYS, _NAMES, _STORES = {}, {}, {}


def expr_key(n):
    r = _KEYS.get(id(n))
    if r is None or r[1] is not n:
        r = _KEYS[id(n)] = (ast.unparse(n), n)
    return r[0]


def dep_names(n):
    """names and attribute texts an expression depends on"""
    r = _NAMES.get(id(n))
    if r is None or r[1] is not n:
        r = _NAMES[id(n)] = (frozenset(names_in(n) | {expr_key(x) for x in ast.walk(n) if isinstance(x, ast.Attribute)}), n)
    return r[0]


def stored_names(target):
    r = _STORES.get(id(target))
    if r is None or r[1] is not target:
        names = {x.id for x in ast.walk(target) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
        names |= {expr_key(x) for x in ast.walk(target) if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del))}
        if isinstance(target, ast.Subscript):
            names |= names_in(target.value)
        r = _STORES[id(target)] = (names, target)
    return r[0]


def const_of(n):
    """(True, value) for constants and constant containers"""
    if isinstance(n, ast.Constant):
        return True, n.value
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant):
        try:
            return True, -n.operand.value
        except TypeError:
            return False, None
    return False, None


def names_in(text_node):
    return {x.id for x in ast.walk(text_node) if isinstance(x, ast.Name)}


class Flow:
    """Subclass hooks: load(name_node, S), on_expr(node, S), assigned(names, S, node), join(datas)"""

    NORETURN = {"sys.exit", "exit", "quit", "os._exit", "parser.error", "self.parser.error", "pytest.skip"}
    AT_LEAST_ONCE = True
    STATES = MAXSTATES

    def __init__(self, fnode):
        self.fnode = fnode
        self.exits = []  # (kind, S, node)
        self.deps = {}   # fact key -> names it mentions
        self.try_stack = []
        self.steps = 0
        self.cmp = {}    # fact key -> (left, comparison, number)

    # ---- hooks
    def expr(self, node, s):
        """evaluate an expression for effects; return list of states"""
        return [s]

    def bind(self, target, s, value=None):
        return [s]

    def join(self, a, b):
        raise NotImplementedError

    # ---- facts
    def _put(self, s, key, node, kind, val):
        self.deps.setdefault(key, set(dep_names(node)))
        f = dict(s.facts)
        if kind == "eq":
            f[key] = ("eq", val)
        elif key in f and f[key][0] == "in":
            left = tuple(x for x in f[key][1] if x != val)
            f[key] = ("in", left) if len(left) != 1 else ("eq", left[0])
        else:
            old = f.get(key)
            base = old[1] if old and old[0] == "ne" else frozenset()
            f[key] = ("ne", base | {self._h(val)})
        return S(f, s.data)

    @staticmethod
    def _h(v):
        try:
            hash(v)
            return (type(v).__name__ if isinstance(v, (bool, type(None))) else "", v)
        except TypeError:
            return ("", repr(v))

    def keyof(self, node, s):
        """text of an expression, with plain copies of other variables replaced by what they copy"""
        if not any(k[0] == "@" for k in s.facts):
            return expr_key(node)
        if isinstance(node, ast.Name):
            a = s.facts.get("@" + node.id)
            return a[1] if a else node.id
        sub = {n.id: s.facts["@" + n.id][1] for n in ast.walk(node) if isinstance(n, ast.Name) and "@" + n.id in s.facts}
        if not sub:
            return expr_key(node)

        class R(ast.NodeTransformer):
            def visit_Name(self, n):
                return ast.Name(sub.get(n.id, n.id), n.ctx)

        return expr_key(R().visit(ast.parse(expr_key(node), mode="eval").body))

    def _know(self, s, key, val):
        """is expr(key)==val known?  True/False/None"""
        f = s.facts.get(key)
        if f is None:
            return None
        if f[0] == "eq":
            a, b = f[1], val
            if (a is None) != (b is None):
                return False
            return a == b
        if f[0] == "ne":
            return False if self._h(val) in f[1] else None
        if f[0] == "in":
            return False if val not in f[1] else None
        return None

    def forget(self, s, names):
        if not s.facts:
            return s
        f = {k: v for k, v in s.facts.items() if not (self.deps.get(k, set()) & names)}
        return S(f, s.data) if len(f) != len(s.facts) else s

    def learn_assign(self, s, target, value):
        if isinstance(target, ast.Name) and value is not None:
            ok, v = const_of(value)
            if ok:
                return self._put(s, target.id, target, "eq", v)
            if isinstance(value, ast.Name) and value.id in s.facts and value.id != target.id:
                self.deps.setdefault(target.id, {target.id})
                f = dict(s.facts)
                f[target.id] = f[value.id]
                return S(f, s.data)
            if isinstance(value, ast.Attribute) and expr_key(value) in s.facts:
                self.deps.setdefault(target.id, {target.id})
                return S({**s.facts, target.id: s.facts[expr_key(value)]}, s.data)
            if isinstance(value, (ast.List, ast.Dict, ast.Tuple, ast.Set, ast.ListComp, ast.DictComp, ast.JoinedStr, ast.Lambda)):
                return self._put(s, target.id, target, "ne", None)
        if isinstance(target, ast.Attribute) and value is not None:
            ok, v = const_of(value)
            if ok:
                return self._put(s, expr_key(target), target, "eq", v)
        return s

    # ---- conditions
    def cond(self, test, s):
        """-> list of (state, bool)"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return [(t, not b) for t, b in self.cond(test.operand, s)]
        if isinstance(test, ast.BoolOp):
            isand = isinstance(test.op, ast.And)
            live, out = [s], []
            for v in test.values:
                nxt = []
                for x in live:
                    for t, b in self.cond(v, x):
                        if b == isand:
                            nxt.append(t)
                        else:
                            out.append((t, b))
                live = nxt
            return self._dedup_c(out + [(x, isand) for x in live])
        if isinstance(test, ast.NamedExpr):
            res = []
            for x in self.expr(test, s):
                res += [(x, True), (x, False)]
            return res
        out = []
        for x in self.expr(test, s):
            out += self._atom(test, x)
        return out

    def _dedup_c(self, l):
        seen, out = set(), []
        for t, b in l:
            k = (t.key(), b)
            if k not in seen:
                seen.add(k)
                out.append((t, b))
        return out

    def _atom(self, test, s):
        ok, v = const_of(test)
        if ok:
            return [(s, bool(v))]
        if isinstance(test, ast.BinOp) and isinstance(test.op, (ast.BitAnd, ast.BitOr)) and self._nonetests(test):
            return self.cond(ast.BoolOp(ast.And() if isinstance(test.op, ast.BitAnd) else ast.Or(), [test.left, test.right]), s)
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id in ("isinstance", "hasattr", "callable") and test.args \
                and isinstance(test.args[0], (ast.Name, ast.Attribute)) and "None" not in expr_key(test):
            k = self.keyof(test.args[0], s)
            if self._know(s, k, None) is True:
                return [(s, False)]
            out = []
            for t, b in self._generic(test, s):
                if b and k not in t.facts:
                    t = self._put(t, k, test.args[0], "ne", None)
                out.append((t, b))
            return out
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op, l, r = test.ops[0], test.left, test.comparators[0]
            lc, lv = const_of(l)
            rc, rv = const_of(r)
            if lc and not rc and isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                l, r, rc, rv = r, l, True, lv
            if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)) and rc:
                pos = isinstance(op, (ast.Eq, ast.Is))
                k = self.keyof(l, s)
                kn = self._know(s, k, rv)
                if kn is None and rv is not None and s.facts.get(k) == ("truth", False) and bool(rv):
                    kn = False
                if kn is not None:
                    return [(s, kn == pos)]
                return [(self._put(s, k, l, "eq", rv), pos), (self._put(s, k, l, "ne", rv), not pos)]
            if isinstance(op, (ast.In, ast.NotIn)) and isinstance(r, (ast.List, ast.Tuple, ast.Set)) and all(const_of(e)[0] for e in r.elts):
                pos = isinstance(op, ast.In)
                k = self.keyof(l, s)
                vals = [const_of(e)[1] for e in r.elts]
                f = s.facts.get(k)
                if f and f[0] == "eq":
                    return [(s, (f[1] in vals) == pos)]
                left = [v for v in vals if self._know(s, k, v) is not False]
                neg = s
                for v in vals:
                    neg = self._put(neg, k, l, "ne", v)
                key = expr_key(test if pos else ast.Compare(l, [ast.In()], [r]))
                if not left:
                    return [(s, not pos)]
                kt = s.facts.get(key)
                if kt is not None and kt[0] == "truth":
                    return [(s, kt[1] == pos)]
                self.deps.setdefault(k, set(dep_names(l)))
                yes = S({**s.facts, k: ("in", tuple(left))}, s.data) if len(left) > 1 else self._put(s, k, l, "eq", left[0])
                return [(yes, pos), (self._truth(neg, key, test, False), not pos)]
            neg = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.GtE: ast.Lt, ast.LtE: ast.Gt}
            if type(op) in neg:
                t2 = ast.Compare(l, [neg[type(op)]()], [r])
                return [(t, not b) for t, b in self._generic(t2, s)]
        return self._generic(test, s)

    def _ordered(self, s, left, op, v):
        """does what is known about the size of an expression decide this comparison?  (only comparisons found true count: a NaN fails all)"""
        lo = hi = None
        f = s.facts.get(left)
        if f and f[0] == "eq" and isinstance(f[1], (int, float)) and not isinstance(f[1], bool):
            return ORDER[op](f[1], v)
        for k, x in s.facts.items():
            c = self.cmp.get(k)
            if c and c[0] == left and x == ("truth", True):
                if c[1] in (ast.Gt, ast.GtE):
                    lo = max(lo or (c[2], c[1] is ast.Gt), (c[2], c[1] is ast.Gt))
                else:
                    hi = min(hi or (c[2], c[1] is ast.LtE), (c[2], c[1] is ast.LtE))
        if op in (ast.Lt, ast.LtE):
            if lo and (lo[0] > v or lo[0] == v and (lo[1] or op is ast.Lt)):
                return False
            if hi and (hi[0] < v or hi[0] == v and (not hi[1] or op is ast.LtE)):
                return True
        else:
            if hi and (hi[0] < v or hi[0] == v and (not hi[1] or op is ast.Gt)):
                return False
            if lo and (lo[0] > v or lo[0] == v and (lo[1] or op is ast.GtE)):
                return True
        return None

    def _nonetests(self, n):
        if isinstance(n, ast.BinOp):
            return isinstance(n.op, (ast.BitAnd, ast.BitOr)) and self._nonetests(n.left) and self._nonetests(n.right)
        return isinstance(n, ast.Compare) and isinstance(n.ops[0], (ast.Is, ast.IsNot))

    def _truth(self, s, key, node, val):
        self.deps.setdefault(key, set(dep_names(node)))
        f = dict(s.facts)
        f[key] = ("truth", val)
        return S(f, s.data)

    def _generic(self, test, s):
        k = self.keyof(test, s)
        f = s.facts.get(k)
        if f is not None:
            if f[0] == "truth":
                return [(s, f[1])]
            if f[0] == "eq":
                return [(s, bool(f[1]))]
        if isinstance(test, ast.Compare) and type(test.ops[0]) in ORDER and len(test.ops) == 1:
            ok, v = const_of(test.comparators[0])
            if ok and isinstance(v, (int, float)) and not isinstance(v, bool):
                self.cmp[k] = (self.keyof(test.left, s), type(test.ops[0]), v)
                r = self._ordered(s, *self.cmp[k])
                if r is not None:
                    return [(s, r)]
        yes, no = self._truth(s, k, test, True), self._truth(s, k, test, False)
        if f is not None and f[0] == "ne":
            # keep the disequalities on both sides
            pass
        return [(yes, True), (no, False)]

    # ---- blocks
    def squash(self, states):
        seen, out = {}, []
        for s in states:
            k = s.key()
            if k not in seen:
                seen[k] = 1
                out.append(s)
        if len(out) <= self.STATES:
            return out
        # merge by data first, dropping the facts that differ
        by = {}
        for s in out:
            by.setdefault(s.data, []).append(s)
        out = []
        for d, l in by.items():
            common = dict(l[0].facts)
            for s in l[1:]:
                common = {k: v for k, v in common.items() if s.facts.get(k) == v}
            out.append(S(common, d))
        if len(out) <= self.STATES:
            return out
        a = out[0]
        common, d = a.facts, a.data
        for s in out[1:]:
            common = {k: v for k, v in common.items() if s.facts.get(k) == v}
            d = self.join(d, s.data)
        return [S(common, d)]

    def run(self, data, facts=None):
        body = self.fnode.body if isinstance(self.fnode.body, list) else [ast.Return(self.fnode.body)]
        o = self.block(body, [S(facts or {}, data)])
        for s in o["next"]:
            self.exits.append(("fall", s, self.fnode))
        return self.exits

    def new(self):
        return {"next": [], "break": [], "continue": []}

    def block(self, stmts, states):
        out = self.new()
        cur = states
        for st in stmts:
            if not cur:
                break
            cur = self.squash(cur)
            self.note(cur)
            o = self.stmt(st, cur)
            cur = o["next"]
            out["break"] += o["break"]
            out["continue"] += o["continue"]
        out["next"] = cur
        return out

    def note(self, states):
        if self.try_stack:
            self.try_stack[-1].extend(states)

    def exprs(self, nodes, states):
        for n in nodes:
            if n is None:
                continue
            nxt = []
            for s in states:
                nxt += self.expr(n, s)
            states = nxt
        return states

    def _assign(self, target, states, value, stmt):
        out = []
        for s in states:
            names = stored_names(target)
            for t in self.bind(target, s, value):
                copy = None
                if isinstance(value, ast.Name):
                    copy = t.facts.get(value.id)
                t = self.forget(t, names)
                if isinstance(value, ast.Name) and isinstance(target, ast.Name) and value.id != target.id and "@" + value.id not in t.facts:
                    self.deps.setdefault("@" + target.id, set())
                    self.deps["@" + target.id] |= {target.id, value.id}
                    f = dict(t.facts)
                    f["@" + target.id] = ("alias", value.id)
                    if copy is not None:
                        self.deps.setdefault(target.id, {target.id})
                        f[target.id] = copy
                    t = S(f, t.data)
                else:
                    t = self.learn_assign(t, target, value)
                out.append(t)
        return out

    def stmt(self, st, states):
        self.steps += 1
        o = self.new()
        m = getattr(self, "do_" + type(st).__name__, None)
        if m is not None:
            return m(st, states)
        o["next"] = self.exprs([c for c in ast.iter_child_nodes(st) if isinstance(c, ast.expr)], states)
        return o

    def do_Expr(self, st, states):
        o = self.new()
        s2 = self.exprs([st.value], states)
        if isinstance(st.value, ast.Call) and expr_key(st.value.func) in self.NORETURN:
            for s in s2:
                self.exits.append(("raise", s, st))
            return o
        if isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute):
            # a method call may change what is known about its receiver
            nm = expr_key(st.value.func.value)
            s2 = [self.forget(s, {nm}) if nm != "self" else s for s in s2]
        o["next"] = s2
        return o

    def do_Assign(self, st, states):
        o = self.new()
        cur = states
        v = st.value
        if isinstance(v, ast.IfExp) and len(st.targets) == 1:
            nxt = []
            for s in cur:
                for t, b in self.cond(v.test, s):
                    br = v.body if b else v.orelse
                    nxt += self._assign(st.targets[0], self.exprs([br], [t]), br, st)
            o["next"] = nxt
            return o
        cur = self.exprs([v], cur)
        for t in st.targets:
            cur = self._assign(t, cur, v, st)
        o["next"] = cur
        return o

    def do_AnnAssign(self, st, states):
        o = self.new()
        if st.value is None:
            o["next"] = states
            return o
        cur = self.exprs([st.value], states)
        o["next"] = self._assign(st.target, cur, st.value, st)
        return o

    def do_AugAssign(self, st, states):
        o = self.new()
        load = ast.copy_location(ast.parse(expr_key(st.target), mode="eval").body, st.target) if not isinstance(st.target, ast.Name) else ast.copy_location(ast.Name(st.target.id, ast.Load()), st.target)
        cur = self.exprs([load, st.value], states)
        o["next"] = self._assign(st.target, cur, None, st)
        return o

    def do_Delete(self, st, states):
        o = self.new()
        cur = states
        for t in st.targets:
            cur = self.delete(t, cur)
        o["next"] = cur
        return o

    def delete(self, target, states):
        return states

    def do_Return(self, st, states):
        o = self.new()
        for s in self.exprs([st.value], states):
            self.exits.append(("return", s, st))
        return o

    def do_Raise(self, st, states):
        o = self.new()
        for s in self.exprs([st.exc, st.cause], states):
            self.note([s])
            self.exits.append(("raise", s, st))
        return o

    def do_Assert(self, st, states):
        o = self.new()
        for s in states:
            for t, b in self.cond(st.test, s):
                if b:
                    o["next"].append(t)
                else:
                    self.exits.append(("raise", t, st))
        return o

    def do_Pass(self, st, states):
        o = self.new()
        o["next"] = states
        return o

    do_Global = do_Nonlocal = do_Pass

    def do_Import(self, st, states):
        o = self.new()
        cur = []
        for s in states:
            for a in st.names:
                s = self.bind_name((a.asname or a.name).split(".")[0], s)
            cur.append(s)
        o["next"] = cur
        return o

    do_ImportFrom = do_Import

    def bind_name(self, name, s):
        return s

    def do_FunctionDef(self, st, states):
        o = self.new()
        cur = self.exprs(list(st.decorator_list) + list(st.args.defaults) + [d for d in st.args.kw_defaults if d], states)
        o["next"] = [self.bind_name(st.name, s) for s in cur]
        return o

    do_AsyncFunctionDef = do_FunctionDef

    def do_ClassDef(self, st, states):
        o = self.new()
        o["next"] = [self.bind_name(st.name, s) for s in states]
        return o

    def do_Break(self, st, states):
        o = self.new()
        o["break"] = states
        return o

    def do_Continue(self, st, states):
        o = self.new()
        o["continue"] = states
        return o

    def do_If(self, st, states):
        o = self.new()
        yes, no = [], []
        for s in states:
            for t, b in self.cond(st.test, s):
                (yes if b else no).append(t)
        a = self.block(st.body, yes) if yes else self.new()
        b = self.block(st.orelse, no) if no and st.orelse else self.new()
        if no and not st.orelse:
            b["next"] = no
        for k in o:
            o[k] = a[k] + b[k]
        return o

    def _loop_names(self, st):
        names = set()
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                names.add(expr_key(n))
        return names

    def do_For(self, st, states):
        o = self.new()
        names = self._loop_names(st)
        entry = self.exprs([st.iter], states)
        ok_const = isinstance(st.iter, (ast.List, ast.Tuple)) and len(st.iter.elts) > 0
        zero = [] if (self.AT_LEAST_ONCE or ok_const) else list(entry)
        cur = entry
        brk, done = [], []
        for _ in range(2):
            cur = [self.forget(s, names) for s in cur] if _ else cur
            cur = self._assign(st.target, cur, None, st)
            b = self.block(st.body, cur)
            brk += b["break"]
            done += b["next"] + b["continue"]
            cur = self.squash(b["next"] + b["continue"])
            if not cur:
                break
        tail = self.squash(zero + done)
        if st.orelse:
            e = self.block(st.orelse, tail) if tail else self.new()
            o["break"] += e["break"]
            o["continue"] += e["continue"]
            tail = e["next"]
        o["next"] = tail + brk
        return o

    do_AsyncFor = do_For

    def do_While(self, st, states):
        o = self.new()
        names = self._loop_names(st)
        ok, cv = const_of(st.test)
        infinite = ok and bool(cv)
        cur, brk, done = states, [], []
        for i in range(2):
            cur = [self.forget(s, names) for s in cur] if i else cur
            yes, no = [], []
            for s in cur:
                for t, b in self.cond(st.test, s):
                    (yes if b else no).append(t)
            if not infinite and (i or not self.AT_LEAST_ONCE or not yes):
                done += no
            if not yes:
                cur = []
                break
            b = self.block(st.body, yes)
            brk += b["break"]
            cur = self.squash(b["next"] + b["continue"])
            if not cur:
                break
        if not infinite:
            done += [self.forget(s, names) for s in cur]
        tail = self.squash(done)
        if st.orelse:
            e = self.block(st.orelse, tail) if tail else self.new()
            tail = e["next"]
        o["next"] = tail + brk
        return o

    def do_With(self, st, states):
        o = self.new()
        cur = states
        for it in st.items:
            cur = self.exprs([it.context_expr], cur)
            cur = self.enter(it, cur)
            if it.optional_vars is not None:
                cur = self._assign(it.optional_vars, cur, None, st)
        b = self.block(st.body, cur)
        return b

    do_AsyncWith = do_With

    def enter(self, item, states):
        return states

    def do_Try(self, st, states):
        o = self.new()
        nexit = len(self.exits)
        self.try_stack.append([])
        b = self.block(st.body, states)
        self.note([])
        at = self.try_stack.pop()
        # an exception may also escape past this try (no matching handler) or out of its handlers
        self.note(at)
        hstates = self.squash(list(at))
        if st.handlers:
            # raises inside the body are (possibly) caught
            kept = [e for e in self.exits[nexit:] if e[0] != "raise"] if any(h.type is None or expr_key(h.type) in ("Exception", "BaseException") for h in st.handlers) else self.exits[nexit:]
            self.exits[nexit:] = kept
        outs = []
        if st.orelse:
            e = self.block(st.orelse, b["next"]) if b["next"] else self.new()
            outs.append({"next": e["next"], "break": b["break"] + e["break"], "continue": b["continue"] + e["continue"]})
        else:
            outs.append(b)
        for h in st.handlers:
            cur = hstates
            if h.type is not None:
                cur = self.exprs([h.type], cur)
            if h.name:
                cur = [self.bind_name(h.name, s) for s in cur]
            if cur:
                outs.append(self.block(h.body, cur))
        for x in outs:
            for k in o:
                o[k] += x[k]
        if st.finalbody:
            for k in o:
                if o[k]:
                    f = self.block(st.finalbody, self.squash(o[k]))
                    o[k] = f["next"]
                    if k != "break":
                        o["break"] += f["break"]
            # exits through the finally block
            new = []
            for kind, s, n in self.exits[nexit:]:
                save = self.exits
                self.exits = []
                f = self.block(st.finalbody, [s])
                over = self.exits
                self.exits = save
                new += over
                for t in f["next"]:
                    new.append((kind, t, n))
            self.exits[nexit:] = new
        return o

    do_TryStar = do_Try

    def do_Match(self, st, states):
        o = self.new()
        cur = self.exprs([st.subject], states)
        subj = st.subject if isinstance(st.subject, (ast.Name, ast.Attribute)) else None
        for c in st.cases:
            body = cur
            pats = c.pattern.patterns if isinstance(c.pattern, ast.MatchOr) else [c.pattern]
            if subj is not None and not any(isinstance(p, (ast.MatchAs, ast.MatchStar)) for p in pats):
                nn = not any(isinstance(p, ast.MatchSingleton) and p.value is None for p in pats)
                if nn:
                    body = [x if self._know(x, self.keyof(subj, x), None) is False else self._put(x, self.keyof(subj, x), subj, "ne", None)
                            for x in cur if self._know(x, self.keyof(subj, x), None) is not True]
                elif len(pats) == 1:
                    body = [self._put(x, self.keyof(subj, x), subj, "eq", None) for x in cur if self._know(x, self.keyof(subj, x), None) is not False]
                    if c.guard is None:
                        cur = [x if self._know(x, self.keyof(subj, x), None) is False else self._put(x, self.keyof(subj, x), subj, "ne", None)
                               for x in cur if self._know(x, self.keyof(subj, x), None) is not True]
                if not body:
                    continue
            for n in ast.walk(c.pattern):
                nm = getattr(n, "name", None) if isinstance(n, (ast.MatchAs, ast.MatchStar)) else getattr(n, "rest", None) if isinstance(n, ast.MatchMapping) else None
                if nm:
                    body = [self.bind_name(nm, s) for s in body]
            b = self.block(c.body, body)
            for k in o:
                o[k] += b[k]
        if not any(isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None for c in st.cases):
            o["next"] += cur
        return o


# ---------------------------------------------------------------- class invariants
class _Plain(Flow):
    def join(self, a, b):
        return a


_CF = {}


def class_facts(project, cls):
    """facts on self attributes that hold once the constructor has finished: an attribute assigned once, from an
    argument that only certain values get past the constructor's checks"""
    if cls is None:
        return {}, {}
    r = _CF.get(id(cls.node))
    if r is not None and r[0] is cls:
        return r[1], r[2]
    facts, deps = {}, {}
    init = project.find_method(cls, "__init__")
    if init is not None:
        params = set(init.params()[1:] + init.kwonly())
        stores, attrs = {}, {}
        fam = [k for k in project.mro(cls) if hasattr(k, "node")]
        for k in fam:
            for n in ast.walk(k.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == "self":
                    stores[n.attr] = stores.get(n.attr, 0) + 1
        for n in ast.walk(init.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) \
                    and isinstance(n.targets[0].value, ast.Name) and n.targets[0].value.id == "self" and isinstance(n.value, ast.Name) and n.value.id in params:
                attrs[n.targets[0].attr] = n.value.id
        once = {a: p for a, p in attrs.items() if stores.get(a) == 1}
        if once:
            f = _Plain(init.node)
            f.run(frozenset())
            ends = [s for k, s, _ in f.exits if k in ("fall", "return")]
            for a, p in once.items():
                vals = []
                for s in ends:
                    for key in (p, "self." + a):
                        x = s.facts.get(key)
                        if x and x[0] == "eq":
                            vals.append([x[1]])
                            break
                        if x and x[0] == "in":
                            vals.append(list(x[1]))
                            break
                    else:
                        vals = None
                        break
                if vals:
                    u = []
                    for v in vals:
                        for e in v:
                            if e not in u:
                                u.append(e)
                    key = "self." + a
                    facts[key] = ("eq", u[0]) if len(u) == 1 else ("in", tuple(u))
                    deps[key] = {key}
    _CF[id(cls.node)] = (cls, facts, deps)
    return facts, deps


def same_args(m, q, flow):
    """a private helper with one caller, which hands in one of its variables under two names: the parameters are the same thing"""
    name = q.rsplit(".", 1)[-1]
    if not name.startswith("_") or name.startswith("__"):
        return {}
    sites = [(g, c) for g in ast.walk(m.tree) if isinstance(g, (ast.FunctionDef, ast.AsyncFunctionDef)) and g.name != name for c in ast.walk(g)
             if isinstance(c, ast.Call) and name in (getattr(c.func, "id", None), getattr(c.func, "attr", None))]
    if len(sites) != 1:
        return {}
    g, c = sites[0]
    a = flow.fnode.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    if isinstance(c.func, ast.Attribute) and ps:
        ps = ps[1:]
    given = {p: x.id for p, x in list(zip(ps, c.args)) + [(k.arg, k.value) for k in c.keywords] if isinstance(x, ast.Name)}
    stores = {}
    for n in ast.walk(g):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            stores[n.id] = stores.get(n.id, 0) + 1
    own = {x.arg for x in g.args.posonlyargs + g.args.args + g.args.kwonlyargs}
    root = {n.targets[0].id: n.value.id for n in ast.walk(g) if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name)
            and isinstance(n.value, ast.Name) and stores.get(n.targets[0].id) == 1 and stores.get(n.value.id, 0) == (0 if n.value.id in own else 1)}
    first, out = {}, {}
    for p, x in given.items():
        r = root.get(x, x)
        if r in first:
            out["@" + p] = ("alias", first[r])
            flow.deps.setdefault("@" + p, set()).update({p, first[r]})
        else:
            first[r] = p
    return out


def start_facts(project, m, q, flow):
    """seed a walker of method q (Class.method) with the class invariants"""
    parts = q.split(".")
    if len(parts) == 1:
        return same_args(m, q, flow)
    if len(parts) == 2 and parts[0] in m.classes and parts[1] != "__init__":
        facts, deps = class_facts(project, m.classes[parts[0]])
        flow.deps.update({k: set(v) for k, v in deps.items()})
        return dict(facts)
    return {}
