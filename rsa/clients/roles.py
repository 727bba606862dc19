"""Every value reaches the parameter, attribute, column or variable that stands for it.

What a name stands for is read off the names the code itself uses: a value called like one parameter of the callee does not
go to another one, and the two sides of an opposition (right ascension/declination, longitude/latitude, azimuth/altitude;
minimum/maximum, start/end, lower/upper) are not exchanged.
"""
import ast
import re
from functools import lru_cache

from ..core import Result, where
from ..external import OPEN, ESig, external, sigs
from ..project import FuncInfo, walk_own
from ..util import short
from .libraries import target as library_target
from .linking import call_target, enclosing, fsig, in_scope

FAMILIES = {
    "axis": {
        "along": {"ra", "ras", "lon", "lons", "long", "longitude", "az", "azs", "azimuth", "glon", "acen", "gall", "lng", "ralist"},
        "across": {"dec", "decs", "decl", "declination", "lat", "lats", "latitude", "alt", "alts", "altitude", "glat", "deccen", "galb", "elevation"},
    },
    "side": {
        "low": {"low", "min", "minimum", "lower", "start", "begin", "first", "mins", "starts", "sunset", "dusk"},
        "high": {"high", "max", "maximum", "upper", "end", "stop", "last", "maxs", "ends", "sunrise", "dawn"},
    },
    "quantity": {
        "mjd": {"mjd", "mjds"}, "night": {"night", "nights"}, "airmass": {"airmass", "airmasses"}, "seeing": {"seeing", "fwhm"}, "band": {"filter", "band", "filters", "bands", "filtername", "filternames"},
        "snr": {"snr", "snrs"}, "flux": {"flux", "fluxes"}, "mag": {"mag", "mags", "magnitude", "magnitudes", "m", "depth", "depths"}, "exposure time": {"exptime", "exptimes"}, "note": {"note", "notes"},
        "hour angle": {"ha"}, "sidereal time": {"lst"}, "parallactic angle": {"pa"}, "distance": {"dist", "distance", "distances"},
        "nside": {"nside"}, "redshift": {"redshift", "redshifts"}, "color": {"color", "colors", "colour"}, "wavelength": {"wavelength", "wavelengths", "wavelen"},
    },
}
ROLE = {t: (f, r) for f, rs in FAMILIES.items() for r, ts in rs.items() for t in ts}
SAYS = {"axis": {"along": "a longitude-like coordinate", "across": "a latitude-like coordinate"}, "side": {"low": "the lower or first end", "high": "the upper or last end"},
        "quantity": {q: f"the {q} quantity" for q in FAMILIES["quantity"]}}
UNIT_ATTRS = {"deg", "rad", "radian", "radians", "degree", "degrees", "value", "values", "data", "hour", "hourangle", "T", "flat", "iloc", "loc"}
PLAIN_CALLS = {"radians", "degrees", "deg2rad", "rad2deg", "float", "int", "array", "asarray", "copy", "deepcopy", "list", "tuple", "ravel", "atleast_1d", "squeeze", "to_numpy", "tolist", "to", "to_value",
               "astype", "flatten", "Quantity", "Angle", "Longitude", "Latitude"}

STACKS = {"vstack", "hstack", "concatenate", "stack", "column_stack"}


def tokens(name):
    s = re.sub(r"\b(RA|ra|Dec|dec)(cen|center|centre)", r"\1_\2", name)
    s = re.sub(r"([a-z0-9])([A-Z])", r"\1_\2", s)
    s = re.sub(r"([A-Z]+)([A-Z][a-z])", r"\1_\2", s)
    return [re.sub(r"\d+$", "", t) for t in s.lower().split("_") if t]


@lru_cache(maxsize=None)
def roles(name):
    """family -> role, for the families on which the name takes one side"""
    out, both = {}, set()
    for t in tokens(name or ""):
        if t in ROLE:
            f, r = ROLE[t]
            if out.get(f, r) != r:
                both.add(f)
            out[f] = r
    return {f: r for f, r in out.items() if f not in both}


def label(e):
    """the name under which a value is known where it is handed over"""
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        if e.attr in UNIT_ATTRS:
            return label(e.value)
        return {"l": "galactic_lon", "b": "galactic_lat"}.get(e.attr, e.attr)
    if isinstance(e, ast.Subscript):
        if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
            return e.slice.value
        if isinstance(e.slice, (ast.Attribute, ast.Name)) and label(e.slice) and label(e.slice).lower().endswith("col"):
            return label(e.slice)
        return label(e.value)
    if isinstance(e, ast.UnaryOp):
        return label(e.operand)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)) and constant(e.left) != constant(e.right):
        return label(e.right if constant(e.left) else e.left)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Mult, ast.Div, ast.Mod)):
        l, r = constant(e.left), constant(e.right)
        if r and not l:
            return label(e.left)
        if l and not r and isinstance(e.op, ast.Mult):
            return label(e.right)
        return None
    if isinstance(e, ast.Constant):
        return e.value if isinstance(e.value, str) and re.fullmatch(r"[A-Za-z]\w{2,}", e.value) else None
    if isinstance(e, ast.Call):
        nm = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ""
        if nm in STACKS and len(e.args) >= 1 and isinstance(e.args[0], (ast.Name, ast.Attribute)):
            return label(e.args[0])
        if nm in PLAIN_CALLS:
            if isinstance(e.func, ast.Attribute) and not (isinstance(e.func.value, ast.Name) and e.func.value.id in ("np", "numpy", "math", "copy", "u", "units", "coord", "ma")):
                return label(e.func.value)
            return label(e.args[0]) if e.args else None
    return None


def constant(e):
    if isinstance(e, ast.Constant):
        return True
    if isinstance(e, ast.Attribute):
        return isinstance(e.value, ast.Name) and e.value.id in ("np", "math", "u", "units")
    if isinstance(e, ast.BinOp):
        return constant(e.left) and constant(e.right)
    if isinstance(e, ast.UnaryOp):
        return constant(e.operand)
    return False


def clash(a, b):
    """the family on which two names take opposite sides (and no family on which they agree)"""
    ra, rb = roles(a), roles(b)
    for f in ra:
        if f in rb and ra[f] != rb[f]:
            return f, ra[f], rb[f]
    return None


def bindings(pos, call):
    """[(parameter, argument)] for the arguments whose parameter is certain"""
    out = []
    for i, a in enumerate(call.args):
        if isinstance(a, ast.Starred):
            break
        if i < len(pos):
            out.append((pos[i], a))
    for k in call.keywords:
        if k.arg is not None:
            out.append((k.arg, k.value))
    return out


SKY_TO_PIX = {"ang2pix", "ang2vec", "get_interp_val", "get_interp_weights"}
METHOD_ORDER = {"latlon": ["lat", "lon"], "lonlat": ["lon", "lat"]}
METHOD_RESULTS = {"altaz": ["alt", "az", None], "radec": ["ra", "dec", None], "latlon": ["lat", "lon", None], "frame_latlon": ["lat", "lon", None]}
PIX_TO_SKY = {"pix2ang", "vec2ang"}


def known_order(project, f, n):
    """[(roles wanted by position, argument)] of functions whose parameters' names do not say it"""
    if isinstance(n.func, ast.Attribute) and n.func.attr in METHOD_ORDER and len(n.args) >= 2:
        return list(zip(METHOD_ORDER[n.func.attr], n.args))
    d = None if self_like(n.func) else project.dotted(f.module, n.func)
    dn = d[1] if d and d[0] == "ext" else None
    if dn is None:
        return []
    last = dn.split(".")[-1]
    if dn.startswith("healpy") and last in SKY_TO_PIX:
        lonlat = next((k.value for k in n.keywords if k.arg == "lonlat"), None)
        if lonlat is not None and not isinstance(lonlat, ast.Constant):
            return []
        order = ["lon", "lat"] if lonlat is not None and lonlat.value else ["lat", "lon"]
        if last in ("ang2pix", "get_interp_val", "get_interp_weights"):
            return list(zip(order, n.args[1:3]))
        return list(zip(order, n.args[:2]))
    if dn in ("numpy.arange", "numpy.linspace") and len(n.args) > 1:
        return list(zip(["start", "stop"], n.args))
    if dn == "numpy.arctan2" and len(n.args) == 2:
        x, y = (re.sub(r"[^a-z]", "", (label(v) or "").lower()) for v in n.args)
        if "x" in x and y != x and y == x.replace("x", "y"):
            return [("y", n.args[0])]
        return list(zip(["lat", "lon"], n.args))
    if dn.endswith("SkyCoord") and len(n.args) == 2 and not any(k.arg == "frame" and not isinstance(k.value, (ast.Constant, ast.Name)) for k in n.keywords):
        return list(zip(["lon", "lat"], n.args))
    return []


def known_results(project, f, n):
    if isinstance(n.func, ast.Attribute) and n.func.attr in METHOD_RESULTS and not n.args:
        return METHOD_RESULTS[n.func.attr]
    d = None if self_like(n.func) else project.dotted(f.module, n.func)
    dn = d[1] if d and d[0] == "ext" else None
    if dn and dn.startswith("healpy") and dn.split(".")[-1] in PIX_TO_SKY:
        lonlat = next((k.value for k in n.keywords if k.arg == "lonlat"), None)
        if lonlat is not None and not isinstance(lonlat, ast.Constant):
            return None
        return ["lon", "lat"] if lonlat is not None and lonlat.value else ["lat", "lon"]
    return None


EDGES, COUNTS = r"edge|bins?$|bound", r"count|hist|result|stat|val|^n$|num"
PARTS = {
    "numpy.histogram": [COUNTS, EDGES], "scipy.stats.binned_statistic": [COUNTS, EDGES, r"number|idx|index"], "numpy.histogram2d": [COUNTS, r"x.*(edge|bin)", r"y.*(edge|bin)"],
    "scipy.optimize.curve_fit": [r"opt|par|coef|fit", r"cov|err"], "scipy.stats.linregress": [r"slope|^m$", r"intercept|^b$", r"^r", r"^p"], "os.path.split": [r"dir|head|path|root|parent", r"file|tail|base|name"],
    "os.path.splitext": [r"root|base|stem|name", r"ext|suffix|type"], "divmod": [r"quot|div|whole", r"rem|mod|rest|frac"], "numpy.divmod": [r"quot|div|whole", r"rem|mod|rest|frac"],
    "numpy.modf": [r"frac|rem", r"int|whole"], "math.modf": [r"frac|rem", r"int|whole"],
}
UNIQUE = {"return_index": r"idx|ind|first|pos", "return_inverse": r"inv", "return_counts": r"count|num|^n"}


def known_parts(project, f, n):
    """what the names of the parts of a library's result look like"""
    d = None if self_like(n.func) else project.dotted(f.module, n.func)
    dn = d[1] if d and d[0] in ("ext", "builtin") else n.func.id if isinstance(n.func, ast.Name) else None
    if dn == "numpy.unique":
        on = [k.arg for k in n.keywords if k.arg in UNIQUE and isinstance(k.value, ast.Constant) and k.value.value]
        return [r"uniq|val"] + [UNIQUE[k] for k in UNIQUE if k in on] if on else None
    return PARTS.get(dn)


def library_parts(res, f, n, names, looks):
    for i, a in enumerate(names[: len(looks)]):
        for j in range(i + 1, min(len(looks), len(names))):
            b = names[j]
            if not a or not b:
                continue
            x, y = a.lower(), b.lower()
            own = re.search(looks[i], x) or re.search(looks[j], y)
            if not own and (re.search(looks[j], x) and not (re.search(looks[i], y) is None and worded(y)) or re.search(looks[i], y) and not worded(x)):
                res.add("result-received-as-another", where(f), f"{short(n.targets[0])} = {short(n.value)}", f"parts {i + 1} and {j + 1} of the result of {short(n.value.func)} are received as each other: {a!r}, {b!r}", n.lineno)


def self_like(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return not isinstance(e, ast.Name) or e.id in ("self", "cls")


def callees(project, f, n, methods):
    """[(what, positional parameters, all parameters)] of every function the call may reach; [] when unknown"""
    t = call_target(project, f, n)
    if t is not None:
        s, pos = fsig(project, *t)
        return [(f"{t[0].qualname}", pos, set(s.names))]
    lt = library_target(project, f, n)
    if lt:
        out = []
        for what, nodes, bound in lt:
            ss = sigs(nodes, bound)
            for s in ss or []:
                out.append((what, s.pos, set(s.pos) | set(s.kwonly)))
        return out
    if isinstance(n.func, ast.Attribute) and n.func.attr in methods and not (isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == "super"):
        out = []
        for g in methods[n.func.attr]:
            s, pos = fsig(project, g, not g.is_static)
            out.append((g.qualname, pos, set(s.names)))
        return out
    return []


def own_methods(project):
    """methods that only project classes define under that name"""
    from .vocabulary import vocabulary
    v = vocabulary(project)
    defs, other = {}, set()
    for c in project.all_classes():
        for nm, g in c.methods.items():
            if not g.is_property and all(d in ("staticmethod", "classmethod") for d in g.decorators):
                defs.setdefault(nm, []).append(g)
            else:
                other.add(nm)
    for m in project.modules.values():
        other |= set(m.functions) | set(m.classes)
    return {k: v_ for k, v_ in defs.items() if k not in other and k not in v.builtin and not k.startswith("__") and "_" in k and len(k) > 5}


def check_arguments(project, tier):
    res = Result()
    methods = own_methods(project)
    for f in project.all_functions():
        if not in_scope(f.module):
            continue
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call):
                continue
            for want, a in known_order(project, f, n):
                res.count("positions_known")
                report_clash(res, f, n, want, a, None)
            cs = callees(project, f, n, methods)
            if not cs:
                # keywords name their parameter whoever is called
                for k in n.keywords:
                    if k.arg is not None:
                        res.count("keywords_to_unknown")
                        if k.arg != "y":
                            report_clash(res, f, n, k.arg, k.value, None)
                continue
            res.count("calls_matched")
            seen = set()
            for what, pos, names in cs:
                bs = bindings(pos, n)
                given = {}
                for p, a in bs:
                    given[p] = label(a)
                bad = []
                for p, a in bs:
                    res.count("arguments_matched")
                    l = label(a)
                    if l is None or l == p:
                        continue
                    c = clash(l, p)
                    if c:
                        bad.append((p, a, c))
                    elif l in names and worded(l) and worded(p) and exchanged(given, p, l) and direct(a):
                        bad.append((p, a, None))
                if not bad:
                    bad = crossed(given, bs)
                for p, a, c in bad:
                    seen.add((p, id(a), c))
                if not bad:
                    seen = set()
                    break
            for p, i, c in seen:
                a = next(a for a in list(n.args) + [k.value for k in n.keywords] if id(a) == i)
                if c:
                    report_clash(res, f, n, p, a, cs[0][0])
                else:
                    res.add("argument-for-another-parameter", where(f), f"{short(n.func)}({p}={short(a)})",
                            f"{cs[0][0]} takes {p!r} here, but is given {short(a)}, which is called after another of its parameters", n.lineno)
    res.guard("arguments_matched", 4000)
    return res


def worded(name):
    """a name that says what it stands for (not a1, i, x)"""
    return len(re.sub(r"[\d_]", "", name)) > 2


def stem(name):
    return re.sub(r"\d+", "", name)


def exchanged(given, p, l):
    """parameter `l` receives, over one or several steps, what belongs to the parameter `p` that received `l`'s value"""
    if stem(p) == stem(l):
        return False
    seen, at = {p}, l
    while at in given and given[at] is not None and at not in seen:
        seen.add(at)
        at = given[at]
    return at == p or len(at) > 1 and "".join(t[0] for t in p.split("_") if t) == at.lower()


CANON = {"mag": "m", "mags": "m", "magnitude": "m", "magnitudes": "m", "decl": "dec", "lats": "lat", "lons": "lon", "latitude": "lat", "longitude": "lon"}


def words(name):
    s = re.sub(r"([a-z0-9])([A-Z])", r"\1_\2", name).lower().replace("five_sigma_depth", "m5")
    band = [m.group(1) for m in (re.fullmatch(r"([ugrizy])(5|lim|mag|band|filter|flux|snr|m5)s?", t) for t in s.split("_")) if m]
    return {CANON.get(t, t) for t in s.split("_") if t} | set(band)


STRONG = {"m5", "mjd", "snr", "seeing", "airmass", "night", "ra", "dec", "lat", "lon"}


def crossed(given, bs):
    """two arguments each of which bears the distinguishing word of the other's parameter and not that of its own"""
    out = []
    args = dict(bs)
    ps = [p for p in given if given[p] and not isinstance(args[p], ast.Constant)]
    for i, p in enumerate(ps):
        for q in ps[i + 1:]:
            wp, wq = words(p), words(q)
            lp, lq = words(given[p]), words(given[q])
            tp, tq = wp - wq, wq - wp
            if not tp or not tq or stem(p) == stem(q) and worded(p):
                continue
            if not tp & lp and not tq & lq and (tp & lq | tq & lp) & STRONG:
                out += [(a, args[a], None) for a, l, t in ((p, lp, tq), (q, lq, tp)) if l & t]
            elif tp & lq and tq & lp and not tp & lp and not tq & lq:
                out += [(p, args[p], None), (q, args[q], None)]
    return out


def direct(a):
    return isinstance(a, ast.Name) or isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name)


def report_clash(res, f, n, p, a, what):
    l = label(a)
    c = clash(l, p) if l else None
    if p == "y" and what is None:
        res.add("opposite-role", where(f), short(n), f"passes {short(a)}, the first plane coordinate, where {short(n.func)} takes the second", n.lineno)
    elif c:
        fam, la, lb = c
        res.add("opposite-role", where(f), f"{short(n.func)}({p}={short(a)})",
                f"passes {short(a)}, {SAYS[fam][la]}, to parameter {p!r}{' of ' + what if what else ''}, {SAYS[fam][lb]}", n.lineno)


def check_results(project, tier):
    """the names that receive the parts of a result are those of the parts"""
    res = Result()
    methods = own_methods(project)
    for f in project.all_functions():
        if not in_scope(f.module):
            continue
        for n in ast.walk(f.node):
            if not (isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Tuple, ast.List))):
                continue
            names = [label(t) if not isinstance(t, ast.Starred) else None for t in n.targets[0].elts]
            if isinstance(n.value, (ast.Tuple, ast.List)) and len(n.value.elts) == len(names):
                parts(res, f, n, names, [label(e) for e in n.value.elts], None)
                continue
            if not isinstance(n.value, ast.Call):
                continue
            looks = known_parts(project, f, n.value)
            if looks:
                res.count("library_results_known")
                library_parts(res, f, n, names, looks)
            if isinstance(n.value.func, ast.Attribute) and n.value.func.attr == "meshgrid":
                parts(res, f, n, names, [label(a) for a in n.value.args], "meshgrid")
            order = known_results(project, f, n.value)
            if order:
                res.count("results_known")
                parts(res, f, n, names, order, "healpy")
            got = returned(project, f, n.value, methods)
            if not got:
                res.count("results_of_unknown_calls")
                continue
            res.count("results_unpacked")
            for what, rows in got:
                for row in rows:
                    if len(row) == len(names):
                        res.count("parts_matched", len(row))
                        parts(res, f, n, names, row, what)
    res.guard("parts_matched", 60)
    return res


def parts(res, f, n, names, row, what):
    given = {a: b for a, b in zip(names, row) if a}
    if what is not None:
        for i in range(len(row)):
            for j in range(i + 1, len(row)):
                a, b, x, y = names[i], names[j], row[i], row[j]
                if None in (a, b, x, y) or (a, b) == (x, y):
                    continue
                own, other_ = words(a) - words(b), words(b) - words(a)
                ri, rj = words(x) - words(y), words(y) - words(x)
                if own & rj and other_ & ri and not own & ri and not other_ & rj and (a, b) != (y, x):
                    res.add("result-received-as-another", where(f), f"{short(n.targets[0])} = {short(n.value)}",
                            f"the parts of the result called {x!r} and {y!r} by {what} are received as {a!r} and {b!r}", n.lineno)
    for a, b in zip(names, row):
        if a is None or b is None or a == b:
            continue
        c = clash(a, b)
        if what is None and not (c and c[0] == "axis"):
            continue
        if c:
            res.add("opposite-role", where(f), f"{short(n.targets[0])} = {short(n.value)}",
                    f"the part of the result called {b!r}{' by ' + what if what else ''}, {SAYS[c[0]][c[2]]}, is received as {a!r}, {SAYS[c[0]][c[1]]}", n.lineno)
        elif (worded(a) and worded(b) or None not in row and set(row) == set(names)) and b in given and exchanged(given, a, b):
            res.add("result-received-as-another", where(f), f"{short(n.targets[0])} = {short(n.value)}",
                    f"the part of the result called {b!r}{' by ' + what if what else ''} is received as {a!r}", n.lineno)


def returned(project, f, call, methods):
    """[(callee, [labels of the parts of each returned tuple])]"""
    out = []
    t = call_target(project, f, call)
    if t is not None:
        out.append((t[0].qualname, t[0].node))
    elif isinstance(call.func, ast.Attribute) and call.func.attr in methods:
        for g in methods[call.func.attr]:
            out.append((g.qualname, g.node))
    else:
        for what, nodes, bound in library_target(project, f, call) or []:
            for nd in nodes:
                if isinstance(nd, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    out.append((what, nd))
    rows = []
    for what, nd in out:
        r = [[label(e) if not isinstance(e, ast.Starred) else None for e in s.value.elts] for s in walk_own(nd) if isinstance(s, ast.Return) and isinstance(s.value, ast.Tuple)]
        if r:
            rows.append((what, r))
    return rows


def check_stores(project, tier):
    """attributes, dictionary entries, columns and paired loops"""
    res = Result()
    for f in project.all_functions():
        if not in_scope(f.module):
            continue
        for p, d in zip((f.node.args.posonlyargs + f.node.args.args)[::-1], f.node.args.defaults[::-1]):
            res.count("defaults")
            pair(res, f, d, p.arg, d)
        for p, d in zip(f.node.args.kwonlyargs, f.node.args.kw_defaults):
            if d is not None:
                pair(res, f, d, p.arg, d)
        params = {a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs} - {"self", "cls"}
        top = set(map(id, f.node.body))
        crossed = {}
        for n in ast.walk(f.node):
            if isinstance(n, (ast.BoolOp, ast.BinOp)):
                bounds(res, f, n)
            if isinstance(n, ast.Assign):
                l = label(n.value)
                for t in n.targets:
                    tl = label(t)
                    if tl is None:
                        continue
                    res.count("stores")
                    if l is not None:
                        c = clash(tl, l)
                        strict = isinstance(t, (ast.Attribute, ast.Subscript)) and isinstance(n.value, ast.Name) and l in params and id(n) in top
                        if c and (c[0] == "axis" or strict):
                            add_store(res, f, n, t, n.value, c)
                        if strict and isinstance(t, ast.Attribute) and tl in params and tl != l:
                            crossed[tl] = (l, n)
                    r = reduction(n.value)
                    if r and not picked(f, n.value):
                        res.count("reductions_stored")
                        other(res, f, n, tl, r, n.value)
            elif isinstance(n, ast.Dict):
                for k, v in zip(n.keys, n.values):
                    if isinstance(k, ast.Constant) and isinstance(k.value, str):
                        res.count("entries")
                        pair(res, f, v, k.value, v)
            elif isinstance(n, (ast.For, ast.comprehension)):
                t, it = n.target, n.iter
                if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and it.args and isinstance(t, ast.Tuple) and len(t.elts) == 2:
                    t, it = t.elts[1], it.args[0]
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "zip" and len(it.args) == len(t.elts):
                    for a, b in zip(t.elts, it.args):
                        res.count("paired_loops")
                        if label(a):
                            pair(res, f, n if isinstance(n, ast.For) else it, label(a), b)
            elif isinstance(n, ast.Call):
                names = next((k.value for k in n.keywords if k.arg in ("names", "columns")), None)
                if names is not None and n.args and isinstance(n.args[0], (ast.List, ast.Tuple)):
                    nl = strings(names)
                    if nl and len(nl) == len(n.args[0].elts):
                        for a, b in zip(nl, n.args[0].elts):
                            res.count("named_columns")
                            pair(res, f, n, a, b)
            elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)):
                a, b = label(n.left), label(n.comparators[0])
                if a and b and not isinstance(n.left, ast.Constant):
                    res.count("comparisons")
                    c = clash(a, b)
                    if c and c[0] == "axis":
                        res.add("opposite-role", where(f), short(n), f"compares {short(n.left)}, {SAYS['axis'][c[1]]}, with {short(n.comparators[0])}, {SAYS['axis'][c[2]]}", n.lineno)
            elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Sub, ast.Add)):
                a, b = label(n.left), label(n.right)
                if a and b:
                    res.count("differences")
                    c = clash(a, b)
                    if c and c[0] == "axis" and isinstance(n.op, ast.Sub):
                        res.add("opposite-role", where(f), short(n), f"takes the difference of {short(n.left)}, {SAYS['axis'][c[1]]}, and {short(n.right)}, {SAYS['axis'][c[2]]}", n.lineno)
        for a, (l, n) in crossed.items():
            given = {k: v[0] for k, v in crossed.items()}
            if worded(a) and worded(l) and exchanged(given, a, l):
                res.add("attribute-of-another-parameter", where(f), short(n), f"attribute {a!r} receives parameter {l!r} and the other way round", n.lineno)
    for c in project.all_classes():
        if in_scope(c.module):
            for s in c.node.body:
                if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                    pair(res, c, s, s.targets[0].id, s.value)
    res.guard("stores", 2000)
    return res


def bounds(res, f, n):
    """both ends of one range: inside is above the lower and below the upper end"""
    if isinstance(n, ast.BoolOp):
        inside, parts_ = isinstance(n.op, ast.And), n.values
    elif isinstance(n.op, (ast.BitAnd, ast.BitOr)):
        inside, parts_ = isinstance(n.op, ast.BitAnd), [n.left, n.right]
    else:
        return
    got = {}
    for c in parts_:
        if isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            for v, b, below in ((c.left, c.comparators[0], isinstance(c.ops[0], (ast.Lt, ast.LtE))), (c.comparators[0], c.left, isinstance(c.ops[0], (ast.Gt, ast.GtE)))):
                r = roles(label(b) or "").get("side")
                if r:
                    rest = tuple(t for t in tokens(label(b)) if t not in ROLE or ROLE[t][0] != "side")
                    got.setdefault((ast.dump(v), rest), {})[r] = below
    for (v, rest), g in got.items():
        if len(g) == 2:
            res.count("ranges")
            if inside and g["low"] and not g["high"] or not inside and not g["low"] and g["high"]:
                res.add("range-ends-exchanged", where(f), short(n), f"{short(n)} is {'never' if inside else 'always'} true: the ends of the range are exchanged", n.lineno)


def pair(res, f, at, name, v):
    l = label(v)
    c = clash(name, l) if l else None
    if c:
        add_store(res, f, at, None, v, c, name)


def add_store(res, f, n, t, v, c, name=None):
    t = short(t) if t is not None else repr(name)
    res.add("opposite-role", where(f), f"{t} = {short(v)}", f"{t}, {SAYS[c[0]][c[1]]}, receives {short(v)}, {SAYS[c[0]][c[2]]}", getattr(n, "lineno", 0))


REDUCE = {"min": "minimum", "nanmin": "minimum", "amin": "minimum", "max": "maximum", "nanmax": "maximum", "amax": "maximum", "mean": "mean", "nanmean": "mean", "average": "mean",
          "median": "median", "nanmedian": "median", "std": "spread", "nanstd": "spread", "sum": "sum", "nansum": "sum"}
WORDS = {"min": "minimum", "minimum": "minimum", "max": "maximum", "maximum": "maximum", "mean": "mean", "avg": "mean", "average": "mean", "median": "median", "std": "spread", "stddev": "spread"}


def reduction(v):
    """which reduction of one whole array `v` is"""
    if any(isinstance(x, ast.Subscript) and not isinstance(x.slice, (ast.Constant, ast.Slice)) for x in ast.walk(v)):
        return None
    if isinstance(v, ast.Call):
        nm = v.func.attr if isinstance(v.func, ast.Attribute) else v.func.id if isinstance(v.func, ast.Name) else ""
        args = len(v.args) + (isinstance(v.func, ast.Attribute) and not (isinstance(v.func.value, ast.Name) and v.func.value.id in ("np", "numpy", "ma")) and nm in REDUCE)
        if nm in REDUCE and args == 1:
            return REDUCE[nm]
    return None


def picked(f, v):
    """the reduced values were picked out of an array before"""
    names = {x.id for x in ast.walk(v) if isinstance(x, ast.Name)}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id in names for t in n.targets):
            if any(isinstance(x, ast.Subscript) and not isinstance(x.slice, (ast.Constant, ast.Slice)) for x in ast.walk(n.value)):
                return True
    return False


def other(res, f, n, name, r, v):
    ws = {WORDS[t] for t in tokens(name) if t in WORDS}
    if len(ws) == 1 and r not in ws and not inner(v, ws):
        res.add("reduction-under-another-name", where(f), f"{name} = {short(v)}", f"{name!r} receives the {r} {short(v)}", n.lineno)


def inner(v, ws):
    """the reduced values are themselves of the kind the name says"""
    for x in ast.walk(v):
        nm = x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else x.value if isinstance(x, ast.Constant) and isinstance(x.value, str) else None
        if nm and x is not v.func and ws & {WORDS[t] for t in tokens(nm) if t in WORDS}:
            return True
    return False


def strings(e):
    if isinstance(e, (ast.List, ast.Tuple)) and all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in e.elts):
        return [x.value for x in e.elts]
    if isinstance(e, ast.Constant) and isinstance(e.value, str) and "," in e.value:
        return [x.strip() for x in e.value.split(",")]
    return None


def documented(node):
    """names of the parts of the result, from the numpydoc Returns section"""
    d = ast.get_docstring(node) or ""
    m = re.search(r"^[ \t]*Returns?[ \t]*\n[ \t]*-+[ \t]*\n(.*?)(?=\n[ \t]*\w[\w ]*\n[ \t]*---|\Z)", d, re.S | re.M)
    if not m:
        return []
    lines = m.group(1).split("\n")
    ind = min((len(l) - len(l.lstrip()) for l in lines if l.strip()), default=0)
    out = []
    for l in lines:
        mt = re.match(r"([A-Za-z_]\w*(?:\s*,\s*[A-Za-z_]\w*)*)\s*:", l[ind:])
        if mt:
            out += [x.strip() for x in mt.group(1).split(",")]
    return out


def check_documented(project, tier):
    """the parts of a result come in the documented order"""
    res = Result()
    for f in project.all_functions():
        if not in_scope(f.module):
            continue
        names = documented(f.node)
        if len(names) < 2:
            continue
        for s in walk_own(f.node):
            if isinstance(s, ast.Return) and isinstance(s.value, ast.Tuple) and len(s.value.elts) == len(names):
                row = [label(e) if not isinstance(e, ast.Starred) else None for e in s.value.elts]
                res.count("documented_parts", len(row))
                for i in range(len(row)):
                    a, x = names[i], row[i]
                    if x is None or a == x:
                        continue
                    c = clash(x, a)
                    if c:
                        res.add("opposite-role", where(f), f"return {short(s.value)}", f"returns {x!r}, {SAYS[c[0]][c[1]]}, as the part documented as {a!r}, {SAYS[c[0]][c[2]]}", s.lineno)
                    elif x in names and names.count(x) == 1 and worded(x) and row[names.index(x)] != x:
                        res.add("result-in-another-place", where(f), f"return {short(s.value)}", f"returns {x!r} as the part documented as {a!r}, while the part documented as {x!r} is something else", s.lineno)
                    else:
                        for j in range(i + 1, len(row)):
                            b, y = names[j], row[j]
                            if y is None:
                                continue
                            wa, wb, wx, wy = words(a) - words(b), words(b) - words(a), words(x) - words(y), words(y) - words(x)
                            if wa & wy and wb & wx and not wa & wx and not wb & wy:
                                res.add("result-in-another-place", where(f), f"return {short(s.value)}", f"returns {x!r} and {y!r} as the parts documented as {a!r} and {b!r}", s.lineno)
    return res
