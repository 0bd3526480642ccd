"""Names select what they name: file formats, trackers, synthetic data sets and output kinds (path tables over the source, paths.py)."""
import itertools, re
import srclib as s
from paths import An, Un, Path, show, showlit


class World:
    """decides the literals of a path for one concrete name"""
    def __init__(self, F, env):
        self.F, self.env = F, env

    def value(self, v):
        k = show(v)
        if k in self.env:
            return self.env[k]
        if not isinstance(v, tuple) or not v:
            return None
        t = v[0]
        if t in ("int", "str"):
            return v[1]
        if t == "at":
            return self.value(v[1])
        if t in ("new", "cast") and len(v) == 3 and isinstance(v[2], tuple) and len(v[2]) == 1:
            return self.value(v[2][0])
        if t == "lin":
            c, parts = v[1], [(self.value(a), n) for a, n in v[2]]
            if any(x is None or isinstance(x, str) for x, n in parts):
                return None
            return c + sum(x * n for x, n in parts)
        if t == "lit":
            return self.decide(v)
        if t == "call":
            n, b, a = v[1], v[2], v[3]
            if n.startswith("operator ") and not a:     # conversion
                return self.value(b)
            if n in ("ends_with", "ends_with_lower") and len(a) == 2:
                x, y = self.value(a[0]), self.value(a[1])
                if isinstance(x, str) and isinstance(y, str):
                    return int(x.lower().endswith(y.lower()) if n == "ends_with_lower" else x.endswith(y))
            if n == "empty" and not a and isinstance(self.value(b), str):
                return int(self.value(b) == "")
            if n in ("size", "length") and not a and isinstance(self.value(b), str):
                return len(self.value(b))
            if n == "file_extension" and b is None:
                xs = [self.value(x) for x in a]
                if all(isinstance(x, str) for x in xs):
                    return extension(self.F, xs)
        return None

    def decide(self, l):
        f, pos = l[1], l[2]
        if f[0] == "t":
            r = self.value(f[1])
            return None if r is None else bool(r) == pos
        if f[0] == "eq0" and f[1][0] == "lin" and len(f[1][2]) == 2 and f[1][1] == 0 and sorted(k for a, k in f[1][2]) == [-1, 1]:
            x, y = [self.value(a) for a, k in f[1][2]]
            if isinstance(x, str) and isinstance(y, str):
                return (x == y) == pos
        r = self.value(f[1])
        if r is None or isinstance(r, str):
            return None
        return ((r >= 0) if f[0] == "ge0" else (r == 0)) == pos

    def take(self, paths):
        return [p for p in paths if not any(self.decide(l) is False for l in p.lits)]


_paths = {}
EVENTS = re.compile(r"(write|read|put|get|save|load|serialize|unserialize|from|to|request|execute|initialize|trace|slice|fatal|warn|set|consume|new|New)\w*$|file_extension|to_vtp|transform\w*")


def paths(F, f):
    k = (f["file"], f["l"], f["q"])
    if k not in _paths:
        A = An(F, f.get("cls", ""), lambda nm, b, a, n, g: nm, lambda g: False)
        _paths[k] = A.run(f)
    return _paths[k]


def func(F, q, nparams=None):
    c = [f for f in F.funcs if s.norm(re.sub(r"<.*?>", "", f["q"])) == q and (nparams is None or len(f["params"]) == nparams) and f.get("body")]
    c.sort(key=lambda f: f["tmpl"] == "pattern")
    pat = [f for f in c if f["tmpl"] == "pattern"]
    return (pat or c)[0] if c else None


_ext = {}


def extension(F, xs):
    f = func(F, "ftk::file_extension", len(xs))
    if not f:
        return None
    k = tuple(xs)
    if k not in _ext:
        ps = World(F, {p["n"]: x for p, x in zip(f["params"], xs)}).take(paths(F, f))
        r = {World(F, {q["n"]: x for q, x in zip(f["params"], xs)}).value(p.ret[1]) for p in ps if p.ret}
        _ext[k] = r.pop() if len(r) == 1 else None
    return _ext[k]


def calls(ev):
    for e in ev:
        if e[0] == "call":
            yield e
        elif e[0] == "loop":
            for alt in e[2]:
                yield from calls(alt[1])


class T:
    def __init__(self, F, R):
        self.F, self.R, self.n, self.fns = F, R, 0, set()

    def get(self, q, np=None):
        f = func(self.F, q, np)
        if not f:
            self.R.error(f"{q} not found")
            return None, None
        try:
            ps = paths(self.F, f)
        except Un as e:
            self.R.error(f"{s.loc(f)}: {q}: {e} is not followed")
            return None, None
        self.fns.add(q)
        return f, ps

    def row(self, q, env, family, want, np=None, what=None, arg=None):
        """with env, the calls of the family made by q are exactly those in want (a set of names); arg: names each call must mention"""
        f, ps = self.get(q, np)
        if not f:
            return
        self.n += 1
        key = f"{q.replace('ftk::', '')}#{','.join(f'{v}' for v in env.values())}"
        pos = World(self.F, env).take(ps)
        if not pos:
            self.R.violation(key, s.loc(f), f"{q}: no path for {env}")
            return
        for p in pos:
            got = {}
            for e in calls(p.ev):
                if re.fullmatch(family, e[1]):
                    got.setdefault(e[1], []).append(e)
            if set(got) != set(want):
                line = next((e[4] for es in got.values() for e in es), f["l"])
                self.R.violation(key, s.loc(f, {"l": line}), f"{q}: {what or 'with ' + ', '.join(f'{a} = {b}' for a, b in env.items())}, {', '.join(sorted(got)) or 'nothing'} is called instead of {', '.join(sorted(want)) or 'nothing'}")
                return
            if arg:
                for e in [e for es in got.values() for e in es]:
                    txt = " ".join(show(x) for x in e[3]) + " " + (show(e[2]) if e[2] else "")
                    for a in arg:
                        if a not in txt:
                            self.R.violation(key + "#" + a, s.loc(f, {"l": e[4]}), f"{q}: {e[1]} is not given {a}")
                            return

    def ret(self, q, env, want, np=None):
        f, ps = self.get(q, np)
        if not f:
            return
        self.n += 1
        key = f"{q.replace('ftk::', '')}#{','.join(f'{v}' for v in env.values())}"
        W = World(self.F, env)
        for p in W.take(ps):
            r = W.value(p.ret[1]) if p.ret and p.ret[1] is not None else None
            if r != want[1]:
                self.R.violation(key, s.loc(f), f"{q}: for {', '.join(map(str, env.values()))} the result is {r} instead of {want[0]}")
                return


FILE_EXT = {"BIN": ["bin", "binary"], "NETCDF": ["nc", "netcdf"], "HDF5": ["h5", "hdf5"], "BP": ["bp", "adios2"], "NUMPY": ["npy", "numpy"], "PNG": ["png"], "VTI": ["vti"], "VTP": ["vtp"], "VTU": ["vtu"], "PVTU": ["pvtu"], "VTK": ["vtk"], "PLY": ["ply"], "STL": ["stl"], "NULL": ["xyz"]}


def extensions(t, val):
    for c, es in FILE_EXT.items():
        want = ("FILE_EXT_" + c, val.get("FILE_EXT_" + c))
        if want[1] is None:
            t.R.error(f"FILE_EXT_{c} is not an enumerator")
            continue
        for e in es:
            for name in ("data." + e, "data." + e.upper()):
                t.ret("ftk::file_extension", {"f": name}, want, 1)
            if c != "NULL":
                t.ret("ftk::file_extension", {"filename": "data.xyz", "format": e}, want, 2)
                t.ret("ftk::file_extension", {"filename": "data." + e, "format": "auto"}, want, 2)
                t.ret("ftk::file_extension", {"filename": "data." + e, "format": ""}, want, 2)


READ = r"read_(bp|netcdf|vtk_image_data_file|h5|numpy|png|binary_file|amira)|fatal"


def readers(t):
    for e, c in (("bp", "read_bp"), ("nc", "read_netcdf"), ("vti", "read_vtk_image_data_file"), ("h5", "read_h5"), ("xyz", "fatal")):
        t.row("ftk::ndarray::read_file", {"filename": "data." + e, "file_exists(filename)": 1}, READ, {c}, arg=() if c == "fatal" else ("filename", "varname"))
    t.row("ftk::ndarray::read_file", {"filename": "data.h5", "file_exists(filename)": 0}, READ, set())
    X = "ftk::simplicial_xgc_2d_mesh::"
    for e, c in (("bp", "from_xgc_mesh_bp"), ("h5", "from_xgc_mesh_h5"), ("xyz", "fatal")):
        t.row(X + "from_xgc_mesh_file", {"filename": "mesh." + e}, r"from_xgc_mesh_(bp|h5)|fatal", {c}, arg=() if c == "fatal" else ("filename",))
    U = r"from_vtu|to_vtu_file|(un)?serialize(From|To)File"
    for d, e, r, w in (("3d", "vtu", "from_vtu", "to_vtu_file"), ("3d", "bin", "unserializeFromFile", "serializeToFile"), ("2d", "vtu", "from_vtu", None), ("2d", "bin", "unserializeFromFile", None)):
        t.row(f"ftk::simplicial_unstructured_{d}_mesh::from_file", {"filename": "mesh." + e}, U, {r})
        if w:
            t.row(f"ftk::simplicial_unstructured_{d}_mesh::to_file", {"filename": "mesh." + e}, U, {w}, arg=("filename",))
    for e in ("x.bin", "x.surface"):
        t.row("ftk::feature_surface_t::save", {"filename": e, "format": "auto"}, r"serializeToFile|write_polydata", {"serializeToFile"}, arg=("filename",))
        t.row("ftk::feature_surface_t::load", {"filename": e, "format": "auto"}, r"unserializeFromFile", {"unserializeFromFile"}, arg=("filename",))
    t.row("ftk::feature_surface_t::save", {"filename": "x.vtp", "format": "auto"}, r"serializeToFile|write_polydata", {"write_polydata"}, arg=("filename", "to_vtp"))
    t.row("ftk::feature_surface_t::save", {"filename": "x.dat", "format": "ply"}, r"serializeToFile|write_polydata", {"write_polydata"}, arg=("filename", "format"))
    t.row("ftk::feature_surface_t::load", {"filename": "x.vtp", "format": "auto"}, r"unserializeFromFile", set())


def outputs(t):
    J = "ftk::json_interface::"
    fam = r"write_\w*critical_points_\w+|write_sliced_results|write_intercepted_results"
    for ty, fmt in itertools.product(("traced", "discrete"), ("vtp", "pvtp", "text", "json", "binary")):
        n = "write_" + ("traced_" if ty == "traced" else "") + "critical_points_" + ("vtk" if "vtp" in fmt else fmt)
        t.row(J + "write", {'j["output_type"]': ty, 'j["output_format"]': fmt, 'j.contains("output")': 1}, fam, {n}, arg=('j["output"]',))
    t.row(J + "write", {'j["output_type"]': "sliced", 'j.contains("output")': 1}, fam, {"write_sliced_results"})
    t.row(J + "write", {'j["output_type"]': "intercepted", 'j.contains("output")': 1}, fam, {"write_intercepted_results"})
    t.row(J + "write", {'j["output_type"]': "traced", 'j["output_format"]': "vtp", 'j.contains("output")': 0}, fam, set())
    for fmt in ("vtp", "pvtp", "text"):
        t.row(J + "write_sliced_results", {'j["output_format"]': fmt}, r"write_\w+", {"write_sliced_critical_points_" + ("text" if fmt == "text" else "vtk")}, arg=("series_filename", "k"))
    for fmt in ("vtp", "pvtp"):
        t.row(J + "write_intercepted_results", {'j["output_format"]': fmt}, r"write_\w+", {"write_intercepted_critical_points_vtk"}, arg=("series_filename", "k"))
    C = "ftk::critical_point_tracker::"
    io = r"write_polydata|(un)?serialize(To|From)File|write_text|write_\w+|get_(sliced_|traced_|intercepted_|discrete_)?critical_points(_vtk|_json)?|put_critical_points|print"
    root = {"is_root_proc()": 1, "get_root_proc()": 0, "comm.rank()": 0}
    other = {"is_root_proc()": 0, "get_root_proc()": 0, "comm.rank()": 1}
    rows = [("write_intercepted_critical_points_vtk", 3, {"get_intercepted_critical_points_vtk", "write_polydata"}), ("write_sliced_critical_points_vtk", 2, {"get_sliced_critical_points_vtk", "write_polydata"}),
            ("write_critical_points_vtk", 1, {"get_critical_points_vtk", "write_polydata"}), ("write_critical_points_binary", 1, {"get_critical_points", "serializeToFile"}),
            ("read_critical_points_binary", 1, {"unserializeFromFile", "put_critical_points"}), ("write_traced_critical_points_binary", 1, {"serializeToFile"}), ("read_traced_critical_points_binary", 1, {"unserializeFromFile"}),
            ("write_traced_critical_points_text", 1, {"write_text"}), ("write_critical_points_text", 1, {"write_critical_points_text"}), ("write_sliced_critical_points_text", 2, {"write_sliced_critical_points_text"}),
            ("write_traced_critical_points_json", 2, {"get_traced_critical_points_json"}), ("read_critical_points_json", 1, {"put_critical_points"})]
    for n, np, want in rows:
        q = C + n
        c = [f for f in t.F.funcs if f["q"] == q and len(f["params"]) == np and (np > 1 or "string" in f["params"][0]["t"])]
        if not c:
            t.R.error(f"{q}/{np} not found")
            continue
        arg = () if "json" in n else ("traced_critical_points",) if "traced" in n and ("binary" in n or "text" in n) else ()
        if "write_polydata" in want:
            arg = tuple(x for x in want if x.startswith("get_"))
        rowf(t, c[0], root, io, want, arg)
        rowf(t, c[0], other, io, set(), ())


    for n in ("write_traced_critical_points_vtk", "read_traced_critical_points_json"):
        c = [f for f in t.F.funcs if f["q"] == C + n]
        if not c:
            t.R.error(f"{C + n} not found")
            continue
        t.n += 1
        t.fns.add(C + n)
        for p in World(t.F, root).take(paths(t.F, c[0])):
            if n.startswith("write"):
                ok = any(e[1] == "write_polydata" and "traced_critical_points" in " ".join(map(show, e[3])) for e in calls(p.ev))
            else:
                v = p.mem.get(("m", "traced_critical_points"))
                ok = v is not None and "get" in show(v) or any(e[0] == "call" and "traced_critical_points" in show(e[2] or ("m", "")) and "=" in e[1] for e in p.ev)
            if not ok:
                t.R.violation(n, s.loc(c[0]), f"{C + n} does not {'write' if n[0] == 'w' else 'set'} traced_critical_points")
                break


def rowf(t, f, env, fam, want, arg):
    key = (f["file"], f["l"], f["q"])
    q = f["q"]
    try:
        ps = paths(t.F, f)
    except Un as e:
        t.R.error(f"{s.loc(f)}: {q}: {e} is not followed")
        return
    t.n += 1
    t.fns.add(q)
    who = "on the root process" if env["comm.rank()"] == env["get_root_proc()"] else "on another process"
    for p in World(t.F, env).take(ps):
        cs = [e for e in calls(p.ev) if re.fullmatch(fam, e[1])]
        got = {e[1] for e in cs}
        if got != want:
            t.R.violation(f"{q.replace('ftk::', '')}#{who}", s.loc(f), f"{q}: {who}, {', '.join(sorted(got)) or 'nothing'} is called instead of {', '.join(sorted(want)) or 'nothing'}")
            return
        order = [e[1] for e in cs]
        for a, b in (("unserializeFromFile", "put_critical_points"), ("get_critical_points_vtk", "write_polydata")):
            if a in order and b in order and order.index(a) > order.index(b):
                t.R.violation(f"{q.replace('ftk::', '')}#order", s.loc(f), f"{q}: {b} comes before {a}")
                return
        for a in arg:
            if not any(a in " ".join(show(x) for x in e[3]) + " " + (show(e[2]) if e[2] else "") for e in cs):
                t.R.violation(f"{q.replace('ftk::', '')}#{a}", s.loc(f), f"{q} does not work on {a}")
                return


def names(t, val):
    T_ = {"CRITICAL_POINT": ["cp", "critical_point"], "CONTOUR": ["iso", "isovolume", "isosurface", "isosurfaces"], "TDGL_VORTEX": ["tdgl", "tdgl_vortex", "tdgl-vortex", "tdgl_vortices", "tdgl-vortices"],
          "CRITICAL_LINE": ["cl", "critical_line", "critical_lines"], "MPAS_O_CRITICAL_POINT": ["mpas-o-cp"], "MPAS_O_PARTICLES": ["mpas-o-pt", "mpas-ocean-pt", "mpas-ocean-particles"], "SUJUDI_HAIMES": ["sujudi_haimes"],
          "RIDGE_VALLEY": ["ridge_valley"], "LEVY_DEGANI_SEGINER": ["levy_degani_seginer"], "PARTICLE": ["particle", "pt"], "CONNECTED_COMPONENTS": ["cc", "connected_component", "connected_components"],
          "XGC_BLOB_FILAMENT": ["xgc_blob_filament", "xgc-blob-filament"], "XGC_BLOB_THRESHOLD": ["xgc_blob_threshold", "xgc-blob-threshold"]}
    for c, ns in T_.items():
        for n in ns:
            t.ret("ftk::tracker::str2tracker", {"s": n}, ("TRACKER_" + c, val.get("TRACKER_" + c)))
    t.ret("ftk::tracker::str2tracker", {"s": "nothing of the kind"}, ("0", 0))
    ex = {"CRITICAL_POINT": "execute_critical_point_tracker", "MPAS_O_CRITICAL_POINT": "execute_critical_point_tracker", "CRITICAL_LINE": "execute_critical_line_tracker", "CONTOUR": "execute_contour_tracker", "TDGL_VORTEX": "execute_tdgl_tracker"}
    for c, n in ex.items():
        t.row("main", {"ttype": val.get("TRACKER_" + c)}, r"execute_\w+", {n}, what=f"for TRACKER_{c}")
    S = "ftk::ndarray_stream::"
    for n in ("woven", "moving_extremum_2d", "moving_extremum_3d", "moving_ramp_3d", "moving_dual_ramp_3d", "double_gyre", "merger_2d", "volcano_2d", "tornado"):
        t.row(S + "request_timestep_synthetic", {'j["name"]': n}, r"request_timestep_\w+", {"request_timestep_synthetic_" + n}, arg=("k",))
    gen = {"woven": "synthetic_woven_2D(_part)?", "moving_extremum_2d": "synthetic_moving_extremum", "moving_extremum_3d": "synthetic_moving_extremum", "moving_ramp_3d": "synthetic_moving_ramp", "moving_dual_ramp_3d": "synthetic_moving_dual_ramp",
           "double_gyre": "synthetic_double_gyre", "merger_2d": "synthetic_merger_2D", "volcano_2d": "synthetic_volcano", "tornado": "synthetic_tornado"}
    for n, g in gen.items():
        f, ps = t.get(S + "request_timestep_synthetic_" + n)
        if not f:
            continue
        t.n += 1
        for p in ps:
            got = [e for e in calls(p.ev) if e[1].startswith("synthetic_")]
            if len(got) != 1 or not re.fullmatch(g, got[0][1]):
                t.R.violation(f"generator#{n}", s.loc(f), f"the data set {n} is made by {', '.join(e[1] for e in got) or 'nothing'} instead of {g}")
                break
        else:
            if not any("k" in re.findall(r"\w+", " ".join(show(x) for x in e[3])) for p in ps for e in calls(p.ev) if e[1].startswith("synthetic_")):
                t.R.violation(f"generator#{n}#k", s.loc(f), f"the data set {n} does not depend on the time step")
    for fm, n in (("float32", "binary"), ("float64", "binary"), ("vti", "vti"), ("vtu", "vtu"), ("vtu_resample", "vtu"), ("pvtu", "vtu"), ("pvtu_resample", "vtu"), ("nc", "nc"), ("pnc", "pnc"), ("h5", "h5"), ("bp3", "bp3"), ("bp4", "bp4")):
        t.row(S + "request_timestep_file", {'j["format"]': fm}, r"request_timestep_\w+", {"request_timestep_file_" + n}, arg=("k",))


def chains(t):
    """file name -> stored format, in the functions that probe it"""
    rows = [("ftk::json_interface::configure", 'j["output"]', 'j["output_format"]', {"a.vtp": "vtp", "a.pvtp": "pvtp", "a.txt": "text", "a.json": "json", "a.xyz": "binary"}),
            ("ftk::json_interface::configure", 'jm["filename"]', 'jm["format"]', {"a.vtu": "vtu", "a.h5": "hdf5", "a.nc": "netcdf"}),
            ("ftk::ndarray_stream::set_input_source_json", "filename0", 'j["format"]', {"a.vti": "vti", "a.vtu": "vtu", "a.pvtu": "pvtu", "a.nc": "nc", "a.h5": "h5", "a.bp": ("bp4", "bp3")}),
            ("ftk::write_polydata", "filename", "format", {"a.ply": "ply", "a.stl": "stl", "a.vtk": "legacy", "a.pvtp": "pvtp", "a.vtp": "vtp", "a.xyz": "vtp"})]
    for q, subj, place, table in rows:
        f = func(t.F, q)
        if not f:
            f = next((g for g in t.F.funcs if g["q"].startswith(q) and g.get("body")), None)
        if not f:
            t.R.error(f"{q} not found")
            continue
        t.fns.add(q)
        blk = block(f, place)
        if blk is None:
            t.R.error(f"{s.loc(f)}: the place where {place} is derived from the file name was not found")
            continue
        A = An(t.F, f.get("cls", ""), lambda nm, b, a, n, g: nm, lambda g: False)
        try:
            ps = [Path()]
            for st in blk:
                ps = A.stmts(ps, st)
        except Un as e:
            t.R.error(f"{s.loc(f)}: {q}: {e} is not followed")
            continue
        for name, want in table.items():
            t.n += 1
            want = want if isinstance(want, tuple) else (want,)
            W = World(t.F, {subj: name, f"{subj}.operator basic_string()": name})
            got = set()
            for p in W.take(ps):
                for k, v in p.mem.items():
                    if show(k) == place:
                        got.add(W.value(v) if W.value(v) is not None else show(v))
            if not got or not got <= set(want) or len(want) > len(got):
                t.R.violation(f"{q.replace('ftk::', '')}#{name}", s.loc(f, blk[0]), f"{q}: the file name {name} selects the format {', '.join(sorted(map(str, got))) or 'nothing'} instead of {' or '.join(want)}")


def block(f, place):
    """the smallest block whose conditionals store a string constant in the place from the end of a file name"""
    best = None
    for x in s.walk(f["body"]):
        if x["k"] != "CompoundStmt":
            continue
        ifs = [y for y in x["c"] if y and y["k"] == "IfStmt"]
        txt = [y for y in ifs if probes(y["cond"]) and stores(y, place)]
        if txt:
            best = [y for y in x["c"] if y and (y["k"] == "DeclStmt" or y in txt or stores(y, place))]
    if best is None:        # the probing conditional is a branch on its own
        for x in s.walk(f["body"]):
            if x["k"] == "IfStmt" and probes(x["cond"]) and stores(x, place):
                return [x]
    if best is None:        # the smallest block with every probe and every store
        for x in s.walk(f["body"]):
            if x["k"] == "CompoundStmt" and any(y["k"] != "CompoundStmt" and "cond" in y and probes(y["cond"]) for y in s.walk(x)) and stores(x, place):
                best = x if best is None or len(list(s.walk(x))) < len(list(s.walk(best))) else best
        best = best and [y for y in best["c"] if y]
    return best


def probes(c):
    return any(y["k"] == "StringLiteral" or str(y.get("n", "")).startswith("FILE_EXT_") for y in s.walk(c)) and any(str(y.get("n", "")).startswith(("ends_with", "FILE_EXT_", "ext")) for y in s.walk(c))


def stores(x, place):
    key = re.sub(r'[^\w]+', " ", place).split()
    for y in s.walk(x):
        if y["k"] in ("BinaryOperator", "CXXOperatorCallExpr", "CXXDependentScopeMemberExpr") or y.get("op") == "=":
            t = s.text(y)
            if t.replace(" ", "").startswith(place.replace(" ", "") + "="):
                return True
    return False


def run(R):
    F = s.main_facts()
    val = {c["n"]: c["v"] for e in F.enums for c in e["consts"]}
    t = T(F, R)
    extensions(t, val)
    readers(t)
    outputs(t)
    names(t, val)
    chains(t)
    R.need(t.n >= 150, f"only {t.n} rows decided")
    R.cov.update(rows=t.n, functions=len(t.fns), rule="on every path consistent with a name, the reader, writer, generator or constant selected is the one of that name")
