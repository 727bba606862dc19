"""Small helpers shared by the clients."""
import ast

from .interp import (Addr, ClassV, Const, DictO, ExtV, Frame, FuncV, Interp, NONE, ObjO, Raise, Ref, SeqO, State, Str,
                     TupV, UNK, Union, Unk, _ModuleFunc, keystr)


def fresh_state(project, module=None):
    st = State()
    m = module or next(iter(project.modules.values()))
    st.frames.append(Frame({}, _ModuleFunc(m), 0))
    return st


def init_params(project, cls):
    init = project.find_method(cls, "__init__")
    if init is None:
        return None, [], {}
    params = init.params()[1:] + init.kwonly()
    return init, params, init.defaults()


def has_abstract_init(fi):
    return fi is None


def symbolic_kwargs(project, cls, root="param"):
    init, params, _ = init_params(project, cls)
    return {p: Ref(root, ("." + p,)) for p in params}


def seq_of(it, st, v):
    """-> (list of values, exact) or (None, False)"""
    if isinstance(v, Union):
        return None, False
    return it.iter_items(st, v)


def get_obj_attr(st, addr, name):
    o = st.heap.get(addr.n) if isinstance(addr, Addr) else None
    if isinstance(o, ObjO):
        return o.d().get(name)
    return None


def short(node, n=70):
    try:
        s = ast.unparse(node)
    except Exception:
        s = node.__class__.__name__
    s = " ".join(s.split())
    return s if len(s) <= n else s[: n - 3] + "..."


_PARENTS = {}


def parent_map(module):
    r = _PARENTS.get(id(module.tree))
    if r is None:
        r = {}
        for n in ast.walk(module.tree):
            for c in ast.iter_child_nodes(n):
                r[id(c)] = n
        _PARENTS[id(module.tree)] = (r, module.tree)
        return r
    return r[0]


def is_store_base(module, node):
    """node is x in  `x[...] = v`  (plain assignment, so x itself is not read for its contents)"""
    pm = parent_map(module)
    p = pm.get(id(node))
    while isinstance(p, ast.Subscript) and isinstance(p.ctx, ast.Load) and p.value is node:
        node, p = p, pm.get(id(p))
    if isinstance(p, ast.Subscript) and p.value is node and isinstance(p.ctx, ast.Store):
        g = pm.get(id(p))
        return not isinstance(g, ast.AugAssign)
    return False


def strkeys(it, st, key):
    """Column-name keys denoted by a subscript value -> list of values or None (not a name)."""
    if isinstance(key, Const):
        return [key] if isinstance(key.v, str) else None
    if isinstance(key, Str):
        return [key]
    if isinstance(key, Ref):
        return [key]
    o = st.heap.get(key.n) if isinstance(key, Addr) else None
    if isinstance(o, SeqO) and o.items and all(isinstance(i, (Str, Ref)) or (isinstance(i, Const) and isinstance(i.v, str)) for i in o.items):
        return list(o.items)
    return None


def opaque(v):
    """value not precise enough to compare column names"""
    if isinstance(v, (Unk, Union)):
        return True
    if isinstance(v, Str):
        return any(not isinstance(p, (str, Ref)) for p in v.parts)
    return False
