"""Angles: every value reaches a trigonometric function, a conversion or a unit-specific function in the unit expected there."""
import ast
import functools
import math
import re

from ..core import Result
from ..flow import S, Flow, expr_key
from .linking import call_target

ANG = ("deg", "rad", "hour", "arcsec", "arcmin")
TO_RAD = {"rad": 1.0, "deg": math.pi / 180, "hour": math.pi / 12, "arcmin": math.pi / 180 / 60, "arcsec": math.pi / 180 / 3600}

FLAGS = {"degrees", "in_deg", "obs_degrees", "lat_lon_deg", "latLonDeg", "ra_dec_deg"}
ANGLE_PARAM = re.compile(r"^(in)?(ra|dec|lon|lat|alt|az|azs|alts|azimuth|altitude|long|latitude|longitude|moon_?(az|alt|ra|dec)|sun_?(az|alt)|ecl_?(lon|lat))\d?$", re.I)
# columns of the visit tables, and of moving object observations when reached through a column option
VISIT_DEG = {"fieldRA", "fieldDec", "rotSkyPos", "rotTelPos", "altitude", "azimuth", "moonAlt", "moonAz", "moonRA", "moonDec", "sunAlt", "sunAz",
             "sunRA", "sunDec", "moonDistance", "solarElong", "observationStartLST", "paraAngle", "slewDistance", "s_ra", "s_dec", "sky_rotation", "zenithDistance", "PA"}
OPTION_DEG = VISIT_DEG | {"ra", "dec", "ditheredRA", "ditheredDec", "randomDitherFieldPerVisitRa", "randomDitherFieldPerVisitDec"}
POINT_RAD = {"ra", "dec", "gall", "galb", "eclipLat", "eclipLon"}
POINT_NAMES = {"slice_point", "slice_points", "slicepoint", "slicePoint"}
# tables with their own conventions: name of the table variable -> column units
TABLES = {"ephs": {"ra": "deg", "dec": "deg", "elongation": "deg", "phase": "deg"}, "stars": {"ra": "deg", "decl": "deg", "x": "rad", "y": "rad"},
          "visit": {"ra": "deg", "dec": "deg", "rotSkyPos": "deg"}, "orbits": {k: "deg" for k in ("inc", "Omega", "argPeri", "meanAnomaly")}}
for _a, _b in (("ephems", "ephs"), ("ephemeris", "ephs"), ("eph", "ephs"), ("ephemerides", "ephs"), ("orbit_dataframe", "orbits"), ("orb", "orbits"), ("orbit", "orbits")):
    TABLES[_a] = TABLES[_b]
DATA_NAMES = {"obs_data", "sim_data", "data_slice", "data", "sso_obs", "simdata", "visits", "obs", "observations", "sim_data_row", "dataSlice", "opsim"}

RS = {  # rubin_scheduler.utils: argument units, result units
    "_angular_separation": (("rad",) * 4, "rad"), "angular_separation": (("deg",) * 4, "deg"), "haversine": (("rad",) * 4, "rad"),
    "_build_tree": (("rad", "rad"), None), "_hpid2_ra_dec": ((None, None), ("rad", "rad")), "hpid2_ra_dec": ((None, None), ("deg", "deg")),
    "_ra_dec2_hpid": ((None, "rad", "rad"), None), "ra_dec2_hpid": ((None, "deg", "deg"), None),
    "_xyz_from_ra_dec": (("rad", "rad"), None), "xyz_from_ra_dec": (("deg", "deg"), None),
    "_ra_dec_from_xyz": ((), ("rad", "rad")), "ra_dec_from_xyz": ((), ("deg", "deg")),
    "_xyz_angular_radius": (("rad",), None), "xyz_angular_radius": (("deg",), None),
    "_healbin": (("rad", "rad"), None), "healbin": (("deg", "deg"), None),
    "gnomonic_project_toxy": (("rad",) * 4, ("rad", "rad")), "gnomonic_project_tosky": ((None, None, "rad", "rad"), ("rad", "rad")),
    "_approx_alt_az2_ra_dec": (("rad",) * 4, ("rad", "rad")), "approx_alt_az2_ra_dec": (("deg",) * 4, ("deg", "deg")),
    "_approx_ra_dec2_alt_az": (("rad",) * 4, ("rad", "rad")), "approx_ra_dec2_alt_az": (("deg",) * 4, ("deg", "deg")),
    "_alt_az_pa_from_ra_dec": (("rad", "rad", None, "rad", "rad"), ("rad",) * 3), "alt_az_pa_from_ra_dec": (("deg", "deg", None, "deg", "deg"), ("deg",) * 3),
    "calc_season": (("deg",), None), "uniform_sphere": ((), ("deg", "deg")),
    "arcsec_from_radians": (("rad",), "arcsec"), "radians_from_arcsec": (("arcsec",), "rad"),
    "arcsec_from_degrees": (("deg",), "arcsec"), "degrees_from_arcsec": (("arcsec",), "deg"),
    "rot_about_z": ((None, "rad"), None), "rot_about_y": ((None, "rad"), None), "rot_about_x": ((None, "rad"), None),
}
RS_PARAMS = {"_angular_separation": ["long1", "lat1", "long2", "lat2"], "angular_separation": ["long1", "lat1", "long2", "lat2"],
             "haversine": ["long1", "lat1", "long2", "lat2"]}
TRIG = {"sin", "cos", "tan"}
ATRIG = {"arcsin", "arccos", "arctan", "arctan2", "asin", "acos", "atan", "atan2"}
KEEP = {"max", "min", "mean", "median", "abs", "absolute", "fabs", "array", "asarray", "concatenate", "sort", "unique", "copy", "ravel", "clip", "minimum",
        "maximum", "atleast_1d", "sum", "diff", "round", "around", "float64", "float32", "squeeze", "nanmean", "nanmax", "nanmin", "nanmedian", "std",
        "append", "tile", "repeat", "linspace", "arange", "hypot", "negative", "nan_to_num", "ma.array", "amax", "amin", "percentile", "average",
        "ascontiguousarray", "hstack", "vstack", "fmod", "mod", "remainder", "cumsum", "float", "list", "sorted", "reshape", "broadcast_to"}
KEEP_M = {"copy", "max", "min", "mean", "flatten", "ravel", "astype", "to_numpy", "item", "compressed", "squeeze", "round", "std", "sum", "clip", "tolist", "filled",
          "reshape", "median", "abs", "transpose"}


def near(a, b):
    return b and abs(a / b - 1) < 1e-3


def cval(n):
    """(value, mentions pi) of a numeric constant expression, or None"""
    if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
        return float(n.value), False
    if isinstance(n, ast.Attribute) and n.attr == "pi" and isinstance(n.value, ast.Name) and n.value.id in ("np", "numpy", "math"):
        return math.pi, True
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.UAdd)):
        v = cval(n.operand)
        return None if v is None else ((-v[0] if isinstance(n.op, ast.USub) else v[0]), v[1])
    if isinstance(n, ast.BinOp):
        a, b = cval(n.left), cval(n.right)
        if a is None or b is None:
            return None
        try:
            r = {ast.Add: lambda: a[0] + b[0], ast.Sub: lambda: a[0] - b[0], ast.Mult: lambda: a[0] * b[0], ast.Div: lambda: a[0] / b[0],
                 ast.Pow: lambda: a[0] ** b[0]}[type(n.op)]()
        except (KeyError, ZeroDivisionError, OverflowError):
            return None
        return (r, a[1] or b[1]) if isinstance(r, float) else None
    return None


# ------------------------------------------------------------------ documented units
def doc_units(node):
    doc = ast.get_docstring(node)
    out = {}
    if not doc:
        return out
    lines = doc.split("\n")
    i, sect = 0, None
    cur, buf = None, []

    def flush():
        if cur:
            u = text_unit(" ".join(buf))
            for c in cur.split(","):
                c = c.strip()
                if u and re.match(r"^\w+$", c):
                    out[c] = u
    while i < len(lines):
        ln = lines[i]
        if i + 1 < len(lines) and re.match(r"^\s*-{3,}\s*$", lines[i + 1]):
            flush()
            cur, buf = None, []
            sect = ln.strip().lower()
            i += 2
            continue
        if sect in ("parameters", "attributes", "other parameters", "keyword args"):
            m = re.match(r"^(\w[\w, ]*?)\s*:\s*(.*)$", ln)
            if m and not ln.startswith(" "):
                flush()
                cur, buf = m.group(1), [m.group(2)]
            elif cur:
                buf.append(ln.strip())
        i += 1
    flush()
    return out


def text_unit(t):
    if re.search(r"`?bool", t):
        return None
    e = {x[0].lower() for x in re.findall(r"\((degree|deg|radian|rad)s?\)", t, re.I)}
    if len(e) == 1:
        return "deg" if e == {"d"} else "rad"
    t = re.sub(r"[Dd]efault.*$", lambda m: m.group(0) if re.search(r"degree|radian", m.group(0)) else "", t)
    d = re.search(r"\b(degrees?|deg)\b", t, re.I)
    r = re.search(r"\b(radians?|rads?)\b", t, re.I)
    if re.search(r"sq(uare)?\.? ?deg|deg(rees?)?\s*(\^2|\*\*2|/|per)|per deg|/ ?deg|day|column|if |unless|convert|hour|arcsec", t, re.I):
        return None
    if d and not r:
        return "deg"
    if r and not d:
        return "rad"
    return None


@functools.lru_cache(None)
def name_unit(n):
    if re.search(r"(_rads?|_radians|Rad)$", n):
        return "rad"
    if re.search(r"(_degs?|_degrees)$", n) and n not in FLAGS and not re.search(r"sq_?deg|per_deg", n):
        return "deg"
    if re.search(r"_(hours?|hrs?)$", n):
        return None
    return None


class Units(Flow):
    MAXD = 30

    def __init__(self, an, fi, report):
        super().__init__(fi.node)
        self.an, self.fi, self.report = an, fi, report
        self.m = fi.module
        self.params = set(fi.params() + fi.kwonly())
        self.flag_params = self.params & FLAGS
        self.demands = {}
        self.rets = []
        self.sites = set()
        self.stores, self.keyst, self.keydem = {}, {}, {}
        self._last, self._dict = None, {}

    def join(self, a, b):
        return a & b

    # ---- env
    def get(self, s, key):
        if self._last is not s.data:
            self._last, self._dict = s.data, dict(s.data)
        return self._dict.get(key)

    def learn_assign(self, s, target, value):
        if isinstance(target, ast.Attribute) and target.attr in FLAGS and isinstance(value, ast.Name) and value.id in s.facts:
            k = expr_key(target)
            self.deps.setdefault(k, {k})
            return S({**s.facts, k: s.facts[value.id]}, s.data)
        return super().learn_assign(s, target, value)

    def put(self, s, key, u):
        d = frozenset((k, v) for k, v in s.data if k != key and not k.startswith(key + "[") and not k.startswith(key + "."))
        if u is not None:
            d = d | {(key, u)}
        return S(s.facts, d)

    def flag(self, s):
        for k in list(self.flag_params) + ["self." + f for f in FLAGS]:
            f = s.facts.get(k)
            if f is None:
                continue
            if f[0] == "eq":
                return bool(f[1])
            if f[0] == "truth":
                return f[1]
        return None

    # ---- hooks
    def expr(self, node, s):
        if isinstance(node, ast.IfExp):
            return [x for t, b in self.cond(node.test, s) for x in self.expr(node.body if b else node.orelse, t)]
        self.unit(node, s)
        return [self.handed(node, s)]

    def handed(self, node, s):
        """the entries of a table or dictionary that package code may refill are no longer known"""
        gone = set()
        for c in ast.walk(node):
            if isinstance(c, ast.Call):
                nm = [a.id for a in list(c.args) + [k.value for k in c.keywords] if isinstance(a, ast.Name)]
                if nm and any(k.startswith(x + "[") for k, _ in s.data for x in nm) and self.an.target(self.fi, c) is not None:
                    gone |= set(nm)
        if not gone:
            return s
        return S(s.facts, frozenset((k, u) for k, u in s.data if not any(k.startswith(x + "[") for x in gone)))

    def bind(self, target, s, value=None):
        if value is not None:
            s0, s = s, self.handed(value, s)
            if s is not s0:
                self.unit(value, s0)
        if isinstance(target, (ast.Tuple, ast.List)):
            u = self.unit(value, s) if value is not None else None
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(target.elts):
                for t, v in zip(target.elts, value.elts):
                    s = self.bind1(t, s, self.unit(v, s), v)
                return [s]
            for i, t in enumerate(target.elts):
                if isinstance(u, tuple):
                    ui = u[i] if i < len(u) else None
                else:
                    ui = None
                s = self.bind1(t, s, ui, None)
            return [s]
        return [self.bind1(target, s, self.unit(value, s) if value is not None else None, value)]

    def bind1(self, t, s, u, value):
        if isinstance(t, ast.Starred):
            t = t.value
        if isinstance(t, ast.Name):
            n = name_unit(t.id)
            if n and u in ANG and u != n:
                self.bad("angle-unit", value if value is not None else t, f"assigned to {t.id}", u, n)
            return self.put(s, t.id, u if u is not None else n)
        if isinstance(t, ast.Attribute):
            n = name_unit(t.attr)
            if n and u in ANG and u != n:
                self.bad("angle-unit", value if value is not None else t, f"assigned to {t.attr}", u, n)
            key = expr_key(t)
            if key.startswith("self.") and (u in ANG or isinstance(u, str) and u.startswith("cam-")):
                self.stores.setdefault(key, set()).add((u, self.flag(s)))
            if key == "self.units" and isinstance(value, ast.List) and all(isinstance(e, ast.Constant) for e in value.elts):
                u = ("lst",) + tuple(str(e.value) for e in value.elts)
            return self.put(s, key, u)
        if isinstance(t, ast.Subscript):
            key = expr_key(t)
            want = self.column(t, s, store=True)
            if want and isinstance(want, str) and u in ANG and u != want:
                self.bad("angle-unit", value if value is not None else t, f"stored in {expr_key(t)}", u, want)
            if isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str) or isinstance(t.slice, ast.Attribute):
                if isinstance(t.slice, ast.Constant) and u in ANG:
                    if key.startswith("self."):
                        self.stores.setdefault(key, set()).add((u, self.flag(s)))
                    elif not want and not (value is not None and isinstance(t.value, ast.Name) and any(isinstance(x, ast.Name) and x.id == t.value.id for x in ast.walk(value))):
                        # (an entry computed from the same container is converted in place)
                        self.keyst.setdefault(t.slice.value, set()).add(u)
                return self.put(s, key, u)
            base = expr_key(t.value)
            old = self.get(s, base)
            if isinstance(t.value, (ast.Name, ast.Attribute)) and old in ANG and u in ANG and old != u:
                self.bad("angle-unit", value if value is not None else t, f"stored in an element of {base}", u, old)
            if old is None and u in ANG and isinstance(t.value, (ast.Name, ast.Attribute)) and base not in DATA_NAMES:
                return self.put(s, base, u)
        return s

    def do_AugAssign(self, st, states):
        v = ast.copy_location(ast.BinOp(ast.copy_location(_load(st.target), st.target), st.op, st.value), st)
        a = ast.copy_location(ast.Assign([st.target], v), st)
        return self.do_Assign(a, states)

    def do_For(self, st, states):
        out = []
        for s in states:
            u = self.unit(st.iter, s)
            if isinstance(st.iter, ast.Call) and isinstance(st.iter.func, ast.Name) and st.iter.func.id in ("zip", "enumerate") and isinstance(st.target, ast.Tuple):
                els = [None] if st.iter.func.id == "enumerate" else []
                els += [self.unit(a, s) for a in st.iter.args]
                for t, e in zip(st.target.elts, els):
                    if isinstance(t, ast.Name):
                        s = self.put(s, t.id, e if e in ANG else name_unit(t.id))
            elif isinstance(st.target, ast.Name):
                s = self.put(s, st.target.id, u if u in ANG else name_unit(st.target.id))
            out.append(s)
        return super().do_For(st, out)

    def do_Return(self, st, states):
        for s in states:
            self.rets.append(self.unit(st.value, s) if st.value is not None else None)
            self.final(self.handed(st.value, s) if st.value is not None else s)
        return super().do_Return(st, states)

    def final(self, s):
        """columns a stacker leaves are in the units it declares"""
        if self.fi.cls is None or self.fi.name not in ("_run", "run"):
            return
        for k, u in s.data:
            mt = re.match(r"^\w+\['(\w+)'\]$", k)
            if mt and u in ANG:
                w = self.an.added_unit(self.fi.cls, mt.group(1), self.flag(s))
                if w and w != u:
                    self.report("column-unit", mt.group(1), f"column {mt.group(1)} is filled in {u}, but the declared unit is {w}", self.fi.node)

    # ---- reporting
    def bad(self, rule, node, what, have, want):
        names = {"deg": "degrees", "rad": "radians", "hour": "hours", "arcsec": "arcseconds", "arcmin": "arcminutes"}
        self.report(rule, expr_key(node)[:80], f"{what} in {names.get(have, have)}, where {names.get(want, want)} are expected", node)

    def demand(self, node, s, want, what):
        u = self.unit(node, s)
        self.sites.add(id(node))
        c = cval(node)
        if c is not None and want == "rad" and not c[1] and 7 < abs(c[0]) < 1000:
            self.bad("angle-unit", node, f"{expr_key(node)[:60]} is passed to {what}", "deg", want)
        if u in ANG and want in ANG and u != want:
            self.bad("angle-unit", node, f"{expr_key(node)[:60]} is passed to {what}", u, want)
        elif u is None and isinstance(node, ast.Subscript) and isinstance(_rootsub(node), str):
            self.keydem.setdefault(_rootsub(node), []).append((want, node, what))
        elif u is None and isinstance(node, ast.Name) and node.id in self.params and self.get(s, node.id) is None and "\0" + node.id not in {k for k, _ in s.data}:
            self.demands.setdefault(node.id, set()).add((want, self.flag(s)))

    # ---- evaluation
    def colname(self, k, s):
        """default column name a subscript refers to -> (name, through an option)"""
        if isinstance(k, ast.Constant) and isinstance(k.value, str):
            return k.value, False
        if isinstance(k, ast.Attribute) and isinstance(k.value, ast.Name) and k.value.id == "self" and self.fi.cls is not None:
            return self.an.attr_default(self.fi.cls, k.attr), True
        if isinstance(k, ast.Name) and k.id in self.params:
            d = self.fi.defaults().get(k.id)
            if isinstance(d, ast.Constant) and isinstance(d.value, str):
                return d.value, True
        return None, False

    def column(self, n, s, store=False):
        name, opt = self.colname(n.slice, s)
        if name is None:
            return None
        b = n.value
        bn = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else None
        if bn in POINT_NAMES:
            return "rad" if name in POINT_RAD else None
        if bn in TABLES and name in TABLES[bn]:
            return TABLES[bn][name]
        if store:
            return None
        if bn in DATA_NAMES or bn is None:
            u = None
            if (self.m.name if self.fi.cls is None else id(self.fi.cls.node)) in self.an.added_in.get(name, ()):
                return None   # where the column is made it may be under way between units
            if name in (OPTION_DEG if opt else VISIT_DEG):
                u = "deg"
            if u == "deg" and self.fi.cls is not None and self.an.class_flag(self.fi.cls):
                f = self.flag(s)
                if f is None:
                    return None
                return "deg" if f else "rad"
            if u == "deg" and self.flag_params:
                f = self.flag(s)
                return None if f is None else "deg" if f else "rad"
            if u:
                return u
            return self.an.added.get(name)
        return None

    def unit(self, n, s, depth=0):
        if n is None or depth > self.MAXD:
            return None
        if isinstance(n, ast.Name):
            u = self.get(s, n.id)
            return u
        if isinstance(n, ast.Constant):
            return None
        if isinstance(n, ast.Attribute):
            return self.attr(n, s, depth)
        if isinstance(n, ast.Subscript):
            k = expr_key(n)
            self.unit(n.slice, s, depth + 1)
            u = self.get(s, k)
            if u is not None:
                return u
            c = self.column(n, s)
            if c:
                self.unit(n.value, s, depth + 1)
                return c
            b = self.unit(n.value, s, depth + 1)
            if isinstance(b, tuple) and b and b[0] != "lst":
                if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int) and -len(b) <= n.slice.value < len(b):
                    return b[n.slice.value]
                return None
            if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
                return None
            return b if b in ANG or b == "one" else None
        if isinstance(n, ast.UnaryOp):
            u = self.unit(n.operand, s, depth + 1)
            return None if isinstance(n.op, (ast.Not, ast.Invert)) else u
        if isinstance(n, ast.BinOp):
            return self.binop(n, s, depth)
        if isinstance(n, ast.Compare):
            self.compare(n, s, depth)
            return None
        if isinstance(n, ast.Call):
            return self.call(n, s, depth)
        if isinstance(n, ast.Dict):
            for k, v in zip(n.keys, n.values):
                u = self.unit(v, s, depth + 1)
                if isinstance(k, ast.Constant) and isinstance(k.value, str) and u in ANG:
                    self.keyst.setdefault(k.value, set()).add(u)
            return None
        if isinstance(n, ast.Tuple):
            return tuple(self.unit(e, s, depth + 1) for e in n.elts)
        if isinstance(n, ast.List):
            us = [self.unit(e, s, depth + 1) for e in n.elts]
            return us[0] if us and us[0] in ANG and all(u == us[0] for u in us) else None
        if isinstance(n, ast.IfExp):
            a, b = None, None
            for t, c in self.cond(n.test, s):
                if c:
                    a = self.unit(n.body, t, depth + 1)
                else:
                    b = self.unit(n.orelse, t, depth + 1)
            return a if a == b else None
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            t = s
            for g in n.generators:
                u = self.unit(g.iter, t, depth + 1)
                if isinstance(g.target, ast.Name):
                    t = self.put(t, g.target.id, u if u in ANG else name_unit(g.target.id))
                else:
                    for x in ast.walk(g.target):
                        if isinstance(x, ast.Name):
                            t = self.put(t, x.id, None)
                for c in g.ifs:
                    self.unit(c, t, depth + 1)
            if isinstance(n, ast.DictComp):
                self.unit(n.key, t, depth + 1)
                self.unit(n.value, t, depth + 1)
                return None
            u = self.unit(n.elt, t, depth + 1)
            return u if u in ANG else None
        if isinstance(n, ast.BoolOp):
            for v in n.values:
                self.unit(v, s, depth + 1)
            return None
        if isinstance(n, ast.NamedExpr):
            return self.unit(n.value, s, depth + 1)
        if isinstance(n, ast.Lambda):
            return None
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.unit(c, s, depth + 1)
        return None

    def attr(self, n, s, depth):
        k = expr_key(n)
        u = self.get(s, k)
        if u is not None:
            return u
        if n.attr in ("deg", "degree", "degrees") and not (isinstance(n.value, ast.Name) and n.value.id in ("u", "units", "self")):
            self.unit(n.value, s, depth + 1)
            return "deg"
        if n.attr in ("rad", "radian") and not (isinstance(n.value, ast.Name) and n.value.id in ("u", "units", "self")):
            self.unit(n.value, s, depth + 1)
            return "rad"
        if n.attr in ("hour", "hourangle") and not isinstance(n.value, ast.Name):
            return "hour"
        w = name_unit(n.attr)
        if w:
            return w
        if n.attr in ("latitude", "longitude") and re.search(r"(site|observatory|Site|telescope)", expr_key(n.value)):
            return "deg"
        if n.attr == "value" and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == "to" and n.value.args:
            return self.apunit(n.value.args[0])
        b = self.unit(n.value, s, depth + 1)
        if n.attr in ("values", "T", "data"):
            return b if b in ANG else None
        return None

    def apunit(self, n):
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            t = n.value
        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in ("u", "units", "apu"):
            t = n.attr
        else:
            return None
        return {"deg": "deg", "degree": "deg", "degrees": "deg", "rad": "rad", "radian": "rad", "radians": "rad", "hourangle": "hour", "hour": None,
                "arcsec": "arcsec", "arcmin": "arcmin"}.get(t)

    def binop(self, n, s, depth):
        op = n.op
        if isinstance(op, (ast.Mult, ast.LShift)):
            w = self.apunit(n.right)
            if w and isinstance(n.right, ast.Attribute):
                self.demand(n.left, s, w, expr_key(n.right))
                return None
            w = self.apunit(n.left)
            if w and isinstance(n.left, ast.Attribute):
                self.demand(n.right, s, w, expr_key(n.left))
                return None
        if isinstance(op, (ast.Mult, ast.Div)):
            num, den, fac, pi = [], [], 1.0, False

            def flat(e, inv):
                nonlocal fac, pi
                c = cval(e)
                if c is not None:
                    fac = fac / c[0] if inv and c[0] else fac * c[0]
                    pi = pi or c[1]
                    return
                if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Mult, ast.Div)):
                    flat(e.left, inv)
                    flat(e.right, inv != isinstance(e.op, ast.Div))
                    return
                (den if inv else num).append(e)
            flat(n, False)
            us = [self.unit(e, s, depth + 1) for e in num]
            ud = [self.unit(e, s, depth + 1) for e in den]
            if den:
                live = [u for u in us if u in ANG]
                if len(live) == 1 and all(u == "one" for u in ud) and all(u in ANG or u == "one" for u in us):
                    pass
                elif len(us) == 1 and len(ud) == 1 and us[0] in ANG and ud[0] in ANG:
                    if us[0] != ud[0]:
                        self.bad("angle-unit", n, "divides an angle", us[0], ud[0])
                    return None
                else:
                    return None
            ang = [(e, u) for e, u in zip(num, us) if u in ANG]
            rest = [u for u in us if u not in ANG]
            if len(ang) == 1 and all(u == "one" for u in rest):
                return self.scale(ang[0][1], fac, pi, n)
            if not ang and us and all(u == "one" for u in us) and not den:
                return "one" if abs(fac) <= 1.0001 and not pi else None
            if not ang and len(num) == 1 and not den and pi:
                if near(abs(fac), math.pi / 180):
                    self.demand(num[0], s, "deg", "a degrees-to-radians factor")
                    return "rad"
                if near(abs(fac), 180 / math.pi):
                    self.demand(num[0], s, "rad", "a radians-to-degrees factor")
                    return "deg"
                if near(abs(fac), math.pi / 12):
                    return "rad"
                if near(abs(fac), 12 / math.pi):
                    return "hour"
            return None
        l, r = self.unit(n.left, s, depth + 1), self.unit(n.right, s, depth + 1)
        if isinstance(op, (ast.Add, ast.Sub, ast.Mod)):
            cl, cr = cval(n.left), cval(n.right)
            if l in ANG and r in ANG and l != r:
                self.bad("angle-unit", n, "combines an angle", l, r)
                return None
            for u, c in ((l, cr), (r, cl)):
                if u in ANG and c is not None and c[0]:
                    self.constant(u, c, n)
            if isinstance(op, ast.Mod):
                return l if l in ANG else None
            return l if l in ANG else r if r in ANG else None
        return None

    def constant(self, u, c, n):
        v, pi = c
        if u == "rad" and not pi and 7 < abs(v) < 1000:
            self.bad("angle-unit", n, "combines an angle in radians with a constant", "deg", "rad")
        if u in ("deg", "hour") and pi and any(near(abs(v), x) for x in (math.pi, math.pi / 2, 2 * math.pi, math.pi * 1.5, math.pi / 4)):
            self.bad("angle-unit", n, "combines an angle in degrees with a multiple of pi,", "rad", u)
        if u == "hour" and not pi and any(near(abs(v), x) for x in (360, 180)):
            self.bad("angle-unit", n, "combines an angle in hours with a constant", "deg", "hour")

    def scale(self, u, fac, pi, n):
        f = abs(fac)
        if pi:
            if near(f, math.pi / 180):
                if u != "deg":
                    self.bad("angle-unit", n, "multiplies by pi/180 an angle", u, "deg")
                return "rad"
            if near(f, 180 / math.pi):
                if u != "rad":
                    self.bad("angle-unit", n, "multiplies by 180/pi an angle", u, "rad")
                return "deg"
        for v in ANG:
            if v != u and near(f, TO_RAD[u] / TO_RAD[v]):
                return v
        if f <= 8 and not pi:
            for v in ANG:   # a known factor in the wrong direction
                if v != u and f != 1 and near(f, TO_RAD[v] / TO_RAD[u]):
                    return None
            return u
        return None

    def compare(self, n, s, depth):
        items = [n.left] + n.comparators
        us = [self.unit(e, s, depth + 1) for e in items]
        for (a, ua), (b, ub), op in zip(zip(items, us), list(zip(items, us))[1:], n.ops):
            if not isinstance(op, (ast.Lt, ast.Gt, ast.LtE, ast.GtE, ast.Eq, ast.NotEq)):
                continue
            if ua in ANG and ub in ANG and ua != ub:
                self.bad("angle-unit", n, "compares an angle", ua, ub)
            for u, e in ((ua, b), (ub, a)):
                c = cval(e)
                if u == "rad" and c is not None and not c[1] and 7 < abs(c[0]) < 1000:
                    self.bad("angle-unit", n, "compares an angle in radians with a limit", "deg", "rad")
                if u == "deg" and c is not None and c[1] and abs(c[0]) < 7:
                    self.bad("angle-unit", n, "compares an angle in degrees with a limit", "rad", "deg")

    def call(self, n, s, depth):
        f = n.func
        t = self.an.ext(self.m, f)
        last = t.split(".")[-1] if t else None
        root = t.split(".")[0] if t else None
        if root in ("numpy", "math") and n.args:
            if last in ("radians", "deg2rad"):
                self.demand(n.args[0], s, "deg", last)
                self.others(n, s, depth, 1)
                return "rad"
            if last in ("degrees", "rad2deg"):
                self.demand(n.args[0], s, "rad", last)
                self.others(n, s, depth, 1)
                return "deg"
            if last in TRIG:
                self.demand(n.args[0], s, "rad", last)
                self.others(n, s, depth, 1)
                return "one"
            if last in ATRIG:
                self.others(n, s, depth, 0)
                return "rad"
            if last in ("mod", "fmod", "remainder") and len(n.args) == 2:
                return self.binop(ast.copy_location(ast.BinOp(n.args[0], ast.Mod(), n.args[1]), n), s, depth)
            if last == "where" and len(n.args) == 3:
                self.unit(n.args[0], s, depth + 1)
                a, b = self.unit(n.args[1], s, depth + 1), self.unit(n.args[2], s, depth + 1)
                if a in ANG and b in ANG and a != b:
                    self.bad("angle-unit", n, "mixes an angle", a, b)
                    return None
                return a if a in ANG else b if b in ANG else None
            if last in KEEP:
                us = self.others(n, s, depth, 0)
                u0 = us[0] if us else None
                if isinstance(u0, tuple):
                    u0 = u0[0] if u0 and all(x == u0[0] for x in u0) else None
                return u0 if u0 in ANG else None
            if last == "interp" and len(n.args) >= 3:
                us = self.others(n, s, depth, 0)
                if us[0] in ANG and us[1] in ANG and us[0] != us[1]:
                    self.bad("angle-unit", n, "interpolates at an angle", us[0], us[1])
                return us[2] if us[2] in ANG else None
            self.others(n, s, depth, 0)
            return None
        if root == "healpy":
            lonlat = any(k.arg == "lonlat" and isinstance(k.value, ast.Constant) and k.value.value for k in n.keywords)
            unk = any(k.arg == "lonlat" and not isinstance(k.value, ast.Constant) for k in n.keywords)
            w = None if unk else "deg" if lonlat else "rad"
            pos = {"ang2pix": (1, 2), "ang2vec": (0, 1), "get_interp_val": (1, 2), "query_disc": (2,)}.get(last)
            if pos and w:
                for i in pos:
                    if i < len(n.args):
                        self.demand(n.args[i], s, "rad" if last == "query_disc" else w, f"healpy.{last}")
                for k in n.keywords:
                    if k.arg in ("theta", "phi"):
                        self.demand(k.value, s, w, f"healpy.{last}")
                    if k.arg == "radius":
                        self.demand(k.value, s, "rad", f"healpy.{last}")
                return None
            self.others(n, s, depth, 0)
            if last == "pix2ang" and w:
                return (w, w)
            if last == "nside2resol":
                am = any(k.arg == "arcmin" and isinstance(k.value, ast.Constant) and k.value.value for k in n.keywords)
                return "arcmin" if am else "rad" if not n.keywords else None
            return None
        if root == "astropy":
            if last in ("SkyCoord", "Angle", "Longitude", "Latitude"):
                w = None
                for k in n.keywords:
                    if k.arg == "unit":
                        v = k.value
                        if isinstance(v, ast.Tuple):
                            v = v.elts[0] if len({expr_key(e) for e in v.elts}) == 1 else None
                        if isinstance(v, ast.Constant) and isinstance(v.value, str) and "," in v.value:
                            a = {x.strip() for x in v.value.split(",")}
                            v = ast.Constant(a.pop()) if len(a) == 1 else None
                        w = self.apunit(v) if v is not None else None
                    else:
                        continue
                for a in list(n.args) + [k.value for k in n.keywords if k.arg in ("ra", "dec", "l", "b", "lon", "lat", "az", "alt")]:
                    if w:
                        self.demand(a, s, w, f"{last}(unit=...)")
                    else:
                        self.unit(a, s, depth + 1)
                return None
        if root == "rubin_scheduler" and last == "LsstCameraFootprint":
            for k in n.keywords:
                if k.arg == "units" and isinstance(k.value, ast.Constant):
                    return "cam-" + {"degrees": "deg", "radians": "rad"}.get(k.value.value, "?")
            return "cam-deg"
        if root == "rubin_scheduler" and last in RS:
            args, ret = RS[last]
            for a, w in zip(n.args, args):
                if w:
                    self.demand(a, s, w, last)
                else:
                    self.unit(a, s, depth + 1)
            for a in n.args[len(args):]:
                self.unit(a, s, depth + 1)
            for k in n.keywords:
                w = None
                names = RS_PARAMS.get(last)
                if names and k.arg in names:
                    w = args[names.index(k.arg)]
                elif k.arg in ("ra", "dec"):
                    w = "rad" if last.startswith("_") else "deg"
                if w:
                    self.demand(k.value, s, w, last)
                else:
                    self.unit(k.value, s, depth + 1)
            return ret
        if isinstance(f, ast.Name) and f.id in ("float", "abs", "min", "max", "list", "sorted", "round") and n.args and self.an.builtin(self.m, f.id):
            us = self.others(n, s, depth, 0)
            return us[0] if us[0] in ANG else None
        if isinstance(f, ast.Attribute) and f.attr in KEEP_M and t is None:
            u = self.unit(f.value, s, depth + 1)
            self.others(n, s, depth, 0)
            return u if u in ANG else None
        if isinstance(f, ast.Attribute) and f.attr == "to_value" and n.args:
            return self.apunit(n.args[0])
        fu = self.get(s, expr_key(f)) if isinstance(f, (ast.Name, ast.Attribute)) else None
        if isinstance(fu, str) and fu.startswith("cam-"):
            for a in n.args:
                self.demand(a, s, fu[4:], "the camera footprint")
            return None
        tgt = self.an.target(self.fi, n)
        us = None
        if tgt is not None:
            g, bound = tgt
            pu = self.an.param_units(g)
            ps = g.params()[1:] if bound else g.params()
            gflag = self.an.flag_param(g)
            fv = None
            if gflag:
                fv = self.argflag(n, g, ps, gflag, s)
            for p, a in list(zip(ps, n.args)) + [(k.arg, k.value) for k in n.keywords if k.arg]:
                if isinstance(a, ast.Starred):
                    break
                w = pu.get(p)
                if gflag and ANGLE_PARAM.match(p):
                    w = None if fv is None else "deg" if fv else "rad"
                if w:
                    self.demand(a, s, w, f"argument {p} of {g.qualname}")
                else:
                    self.unit(a, s, depth + 1)
            return self.an.ret_unit(g)
        if isinstance(f, ast.Attribute):
            self.unit(f.value, s, depth + 1)
        self.others(n, s, depth, 0)
        return None

    def argflag(self, n, g, ps, fl, s):
        for p, a in list(zip(ps, n.args)) + [(k.arg, k.value) for k in n.keywords if k.arg]:
            if p == fl:
                if isinstance(a, ast.Constant):
                    return bool(a.value)
                f = s.facts.get(expr_key(a))
                if f and f[0] in ("eq", "truth"):
                    return bool(f[1])
                return None
        if any(k.arg is None for k in n.keywords):
            return None
        d = g.defaults().get(fl)
        return bool(d.value) if isinstance(d, ast.Constant) else None

    def others(self, n, s, depth, skip):
        out = [self.unit(a.value if isinstance(a, ast.Starred) else a, s, depth + 1) for a in n.args[skip:]]
        for k in n.keywords:
            self.unit(k.value, s, depth + 1)
        return out


def _rootsub(n):
    """the string key of x["key"] or x["key"][...]"""
    while isinstance(n, ast.Subscript):
        if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
            return n.slice.value
        n = n.value
    return None


def _load(t):
    return ast.parse(expr_key(t), mode="eval").body


class Analysis:
    def __init__(self, project):
        self.p = project
        self.added, self.added_in = {}, {}
        self._ret, self._pu, self._doc, self._tgt, self._flagc, self._ext = {}, {}, {}, {}, {}, {}
        self._ad = {}
        self.dem = {}
        self.init_env = {}
        self.addu = {}

    def ext(self, m, f):
        """dotted external name of a callee"""
        k = id(f)
        if k not in self._ext:
            r = None
            if isinstance(f, (ast.Name, ast.Attribute)):
                root = f
                while isinstance(root, ast.Attribute):
                    root = root.value
                if isinstance(root, ast.Name):
                    t = self.p.dotted(m, f)
                    if t and t[0] == "ext":
                        r = t[1]
            self._ext[k] = (r, f)
        return self._ext[k][0]

    def builtin(self, m, name):
        t = self.p.resolve(m, name)
        return t is None or t[0] in ("builtin", "ext")

    def target(self, fi, n):
        k = id(n)
        if k not in self._tgt:
            t = call_target(self.p, fi, n)
            self._tgt[k] = (t, n)
        return self._tgt[k][0]

    def class_flag(self, cls):
        k = id(cls.node)
        if k not in self._flagc:
            r = None
            for c in self.p.mro(cls):
                if not hasattr(c, "methods"):
                    continue
                i = c.methods.get("__init__")
                if i is not None:
                    for n in ast.walk(i.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in FLAGS and isinstance(n.value, ast.Name) and n.value.id == "self":
                            r = n.attr
                if r:
                    break
            self._flagc[k] = r
        return self._flagc[k]

    def flag_param(self, g):
        fl = set(g.params() + g.kwonly()) & (FLAGS - {"lat_lon_deg"})
        return next(iter(fl)) if len(fl) == 1 else None

    def attr_default(self, cls, attr):
        """the default column name an option stored in self.<attr> has"""
        k = (id(cls.node), attr)
        if k not in self._ad:
            self._ad[k] = self._attr_default(cls, attr)
        return self._ad[k]

    def _attr_default(self, cls, attr):
        vals, over = set(), {}
        for c in self.p.mro(cls):
            if not hasattr(c, "methods"):
                continue
            i = c.methods.get("__init__")
            if i is None:
                continue
            d = {**i.defaults(), **over}
            over = d
            for n in ast.walk(i.node):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == attr and isinstance(t.value, ast.Name) and t.value.id == "self" for t in n.targets):
                    v = n.value
                    if isinstance(v, ast.Name) and isinstance(d.get(v.id), ast.Constant):
                        v = d[v.id]
                    vals.add(v.value if isinstance(v, ast.Constant) and isinstance(v.value, str) else None)
            if vals:
                break
        return vals.pop() if len(vals) == 1 else None

    def doc(self, g):
        k = id(g.node)
        if k not in self._doc:
            d = doc_units(g.node)
            if g.cls is not None and g.name == "__init__":
                d = {**doc_units(g.cls.node), **d}
            self._doc[k] = {p: u for p, u in d.items() if p in set(g.params() + g.kwonly())}
        return self._doc[k]

    def param_units(self, g):
        """argument units: the name, the documentation, or what every use in the body demands"""
        k = id(g.node)
        out = dict(self.dem.get(k, {}))
        fl = self.flag_param(g) or (g.cls is not None and g.name == "__init__" and self.class_flag(g.cls))
        for p, u in self.doc(g).items():
            if not (fl and ANGLE_PARAM.match(p)):
                out[p] = u
        for p in g.params() + g.kwonly():
            u = name_unit(p)
            if u:
                out[p] = u
        return out

    def ret_unit(self, g):
        return self._ret.get(id(g.node))

    def added_unit(self, cls, col, flag):
        a = self.addu.get(id(cls.node))
        if not a:
            return None
        l = [(f, u) for f, u in a if f == flag] or [(f, u) for f, u in a if flag is None or f is None]
        us = {u.get(col) for f, u in l}
        return us.pop() if len(us) == 1 else None

    def start(self, fi, fl):
        """initial environments: one per value of the degrees switch"""
        env = {}
        for p, u in self.param_units(fi).items():
            env[p] = u
        flagname = self.flag_param(fi)
        attr = self.class_flag(fi.cls) if fi.cls is not None else None
        if fi.name == "__init__" or attr is None:
            names = [flagname] if flagname else []
        else:
            names = ["self." + attr] + ([flagname] if flagname else [])
        states = []
        for val in ((True, False) if names else (None,)):
            e = dict(env)
            facts = {}
            if val is not None:
                for nm in names:
                    facts[nm] = ("eq", val)
                    fl.deps[nm] = {nm}
                if flagname:
                    for p in fi.params() + fi.kwonly():
                        if ANGLE_PARAM.match(p):
                            e[p] = "deg" if val else "rad"
            if fi.cls is not None and fi.name != "__init__":
                for k, u in self.init_env.get(id(fi.cls.node), {}).get(val, {}).items():
                    e.setdefault(k, u)
            states.append((facts, frozenset((k, u) for k, u in e.items() if u is not None)))
        return states


def analyse(an, fi, report):
    fl = None
    tot = []
    for facts, data in None_start(an, fi):
        fl = Units(an, fi, report)
        for k in facts:
            fl.deps[k] = {k}
        fl.run(data, facts)
        tot.append((facts, fl))
    return tot


def None_start(an, fi):
    tmp = Units(an, fi, lambda *a: None)
    return an.start(fi, tmp)


def classes_init(an, project):
    """units of the attributes the constructors leave, per value of the switch"""
    for c in project.all_classes():
        stores = {}
        for k in project.mro(c):
            if not hasattr(k, "methods"):
                continue
            for mn, f in k.methods.items():
                if mn == "__init__":
                    continue
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self":
                        stores.setdefault("self." + n.attr, 0)
                    if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                        b = expr_key(n.value)
                        if b.startswith("self."):
                            stores.setdefault(b, 0)
        res = {}
        chain = [k.methods["__init__"] for k in reversed(project.mro(c)) if hasattr(k, "methods") and "__init__" in k.methods]
        ul = []
        for i in chain:
            for facts, fl in analyse(an, i, lambda *a: None):
                ends = [s for k, s, _ in fl.exits if k in ("fall", "return")]
                val = next(iter(facts.values()))[1] if facts else None
                per = None
                for s in ends:
                    d = {k: u for k, u in s.data if k.startswith("self.")}
                    per = d if per is None else {k: u for k, u in per.items() if d.get(k) == u}
                for v in ((val,) if val is not None else (None, True, False)):
                    res.setdefault(v, {}).update({k: u for k, u in (per or {}).items() if k not in stores})
        an.init_env[id(c.node)] = res
        # stackers: unit declared for each added column
        cols = class_list(project, c, "cols_added")
        if cols:
            base = class_list(project, c, "units")
            out = []
            for v, env in res.items():
                u = env.get("self.units")
                u = list(u[1:]) if isinstance(u, tuple) and u and u[0] == "lst" else base
                if u and len(u) == len(cols):
                    out.append((v, {cn: declared(x) for cn, x in zip(cols, u)}))
            if out:
                an.addu[id(c.node)] = out
                dflt = None
                fl = an.class_flag(c)
                ini = project.find_method(c, "__init__")
                if fl and ini is not None:
                    dv = next((d for k2, d in ini.defaults().items() if k2 in FLAGS), None)
                    dflt = bool(dv.value) if isinstance(dv, ast.Constant) else None
                for cn in cols:
                    an.added_in.setdefault(cn, set()).update({c.module.name, id(c.node)})
                    us = {d.get(cn) for f2, d in out if dflt is None or f2 == dflt}
                    if len(us) == 1:
                        u = us.pop()
                        if cn in an.added and an.added[cn] != u:
                            an.added[cn] = None
                        else:
                            an.added[cn] = u


def declared(x):
    t = str(x).strip().lower()
    if t in ("degree", "degrees", "deg"):
        return "deg"
    if t in ("radian", "radians", "rad"):
        return "rad"
    if t in ("hours", "hour"):
        return "hour"
    if t in ("arcsec", "arcseconds"):
        return "arcsec"
    return None


def class_list(project, c, attr):
    for k in project.mro(c):
        if not hasattr(k, "node"):
            continue
        for n in k.node.body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == attr and isinstance(n.value, ast.List):
                if all(isinstance(e, ast.Constant) for e in n.value.elts):
                    return [e.value for e in n.value.elts]
        i = k.methods.get("__init__")
        if i is not None:
            v = [n.value for n in ast.walk(i.node) if isinstance(n, ast.Assign) and expr_key(n.targets[0]) == "self." + attr]
            if len(v) == 1 and isinstance(v[0], ast.List) and all(isinstance(e, ast.Constant) for e in v[0].elts):
                return [e.value for e in v[0].elts]
    return None


def check(project, tier):
    res = Result()
    an = Analysis(project)
    fis = list(project.all_functions())
    for rnd in range(3):
        ret, dem = {}, {}
        for fi in fis:
            d, rs = {}, []
            for facts, fl in analyse(an, fi, lambda *a: None):
                for p, ws in fl.demands.items():
                    d.setdefault(p, set()).update(ws)
                rs += fl.rets
            k = id(fi.node)
            dem[k] = {p: next(iter(ws))[0] for p, ws in d.items() if len({w for w, _ in ws}) == 1 and ({f for _, f in ws} == {None} or {f for _, f in ws} >= {True, False})}
            if rs and all(r == rs[0] for r in rs) and rs[0] is not None and not fi.is_generator:
                ret[k] = rs[0]
        stable = (an._ret == ret and an.dem == dem)
        an._ret, an.dem = ret, dem
        if rnd == 0 or not stable:
            classes_init(an, project)
        elif stable:
            break
    sites = 0
    # what each class's methods agree on for an attribute (or a keyed entry of one)
    keyst, keydem = {}, {}
    bycls = {}
    for fi in fis:
        for facts, fl in analyse(an, fi, lambda *a: None):
            for k, us in fl.keyst.items():
                keyst.setdefault(k, set()).update(us)
            if fi.cls is not None:
                for k, us in fl.stores.items():
                    for u, f in us:
                        bycls.setdefault(id(fi.cls.node), (fi.cls, {}))[1].setdefault(k, set()).add((u, f, fi))
    for c in project.all_classes():
        fam = {}
        for k in project.mro(c):
            if hasattr(k, "node") and id(k.node) in bycls:
                for key, us in bycls[id(k.node)][1].items():
                    fam.setdefault(key, set()).update(us)
        env = an.init_env.setdefault(id(c.node), {})
        for key, us in fam.items():
            units = {u for u, _, _ in us}
            if len(units) == 1:
                u = units.pop()
                for v in (None, True, False):
                    env.setdefault(v, {}).setdefault(key, u)
            else:
                cflag = an.class_flag(c)
                if cflag and {f for _, f, _ in us} <= {True, False}:
                    for v in (True, False):
                        vs = {u for u, f, _ in us if f == v}
                        if len(vs) == 1:
                            env.setdefault(v, {}).setdefault(key, next(iter(vs)))
                for v in (True, False, None) if cflag else (0,):
                    if (not cflag or len({u for u, f, _ in us if f == v}) > 1) and any(fi.cls is c for _, _, fi in us):
                        fi = sorted((x for _, _, x in us), key=lambda x: x.qualname)[0]
                        by = ", ".join(sorted({f"{u} in {x.qualname}" for u, _, x in us}))
                        res.add("attribute-unit", f"{fi.relpath}:{c.name}", key, f"holds an angle in different units: {by}", fi.node.lineno)
    for fi in fis:
        def report(rule, construct, msg, node, fi=fi):
            res.add(rule, f"{fi.relpath}:{fi.qualname}", construct, msg, getattr(node, "lineno", None))
        mx = set()
        for facts, fl in analyse(an, fi, report):
            mx |= fl.sites
            for k, l in fl.keydem.items():
                us = keyst.get(k, set())
                if k in fl.keyst:
                    continue  # the function itself converts this entry
                for want, node, what in l:
                    if len(us) == 1 and want not in us:
                        report("angle-unit", expr_key(node)[:80], f"entry {k!r} is stored in {next(iter(us))} and passed to {what}, which expects {want}", node)
        sites += len(mx)
        res.count("functions")
        res.count("documented_or_inferred_parameters", len(an.param_units(fi)))
    res.count("angle_obligations", sites)
    res.count("functions_with_angle_result", len(an._ret))
    res.count("stacker_classes_with_units", len(an.addu))
    res.guard("angle_obligations", 250)
    res.guard("stacker_classes_with_units", 15)
    return res
