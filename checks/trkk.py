"""Extraction kernels of the trackers (engine 1): check_simplex and the simplex_* accessors against the definition."""
from spec import *
import re
import irvn
from gv import *

FD = "include/ftk/filters/"
INC = []
for _s in ("/usr/lib/x86_64-linux-gnu/openmpi/include", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"):
    INC += ["-isystem", _s]
NOINLINE = ("initialize_subdivision", "robust_critical_point", "inverse_lerp", "clamp_barycentric", "critical_point_type_", "parallel_for", "simplicial_regular_mesh_element5valid", "simplicial_regular_mesh_element10is_ordinal",
            "simplicial_regular_mesh_element10to_integer", "6resizeEm", "__gmp_expr", "4fail", "9positive2", "9positive3")
OPTS = dict(full=True, feats=("FTK_HAVE_MPI", "FTK_HAVE_GMP"), flags=["-DDIY_NO_THREADS", "-fno-access-control", "-Wno-c++11-narrowing"] + INC, noinline=NOINLINE)


def cells(E, mem, p, n, size=8):
    """read n consecutive scalars through pointer p (a hook argument)"""
    out = []
    for i in range(n):
        q = Ptr(p.obj, radd(p.off, rc(i * size)))
        c = (mem.get(p.obj) or {}).get((q.off, size))
        if c is None:
            g = E.filled(mem.get(p.obj) or {}, q.off, size)
            c = Undef("not written") if p.obj.startswith(("stack", "heap")) else Rat(pvar(f"{p.obj}[{q.off}]"))
            c = rc(0) if g is True else c if g is False else E.D.ite(g, rc(0), c)
        out.append(c)
    return out


def put(E, mem, owned, p, vals, size=8, stride=None):
    for i, v in enumerate(vals):
        d = dict(mem.get(p.obj, {}))
        d[(radd(p.off, rc(i * (stride or size))), size)] = v
        mem[p.obj] = d
    owned.add(p.obj)


GATE = lambda E, n: E.D.sign3(Rat(pvar(n)), False, False, True)


def base_hook(E, name, args, env, mem, owned, cond, I):
    V = lambda j: E.val(env, args[j])
    if name == "MPI_Comm_rank":
        put(E, mem, owned, V(1), [Rat(pvar("mpirank"))], 4)
        return rc(0)
    if name == "MPI_Comm_size":
        put(E, mem, owned, V(1), [Rat(pvar("mpisize"))], 4)
        return rc(0)
    if name.startswith("MPI_"):
        return rc(0)
    if name == "_ZNSt6thread20hardware_concurrencyEv":
        return Rat(pvar("ncores"))
    if "initialize_subdivision" in name:
        return None
    return NotImplemented


def cp_hook(nv, nd):
    """models of the kernels that other properties decide (N04, N07, N09, M03): their results are fresh symbols or gates, their arguments are recorded"""
    def h(E, name, args, env, mem, owned, cond, I):
        V = lambda j: E.val(env, args[j])
        rec = E.__dict__.setdefault("rec", {})
        if "simplicial_regular_mesh_element5valid" in name:
            return GATE(E, "VALID")
        if "simplicial_regular_mesh_element10is_ordinal" in name:
            return GATE(E, "ORD")
        if "simplicial_regular_mesh_element10to_integer" in name:
            return Rat(pvar("EID"))
        if "robust_critical_point_in_simplex" in name:
            gm = "__gmp_expr" in name
            p = V(0)
            vf = []
            for i in range(nv * nd):
                q = Ptr(p.obj, radd(p.off, rc(i * (24 if gm else 8))))
                vf.append(cells(E, mem, q, 1)[0])
            rec.setdefault("robust", []).append((name, vf, cells(E, mem, V(1), nv, 4), cond))
            return GATE(E, "ROBUST")
        if "9positive2" in name or "9positive3" in name:
            p, gm = V(0), "__gmp_expr" in name
            rec.setdefault("positive", []).append(([cells(E, mem, Ptr(p.obj, radd(p.off, rc(i * (24 if gm else 8)))), 1)[0] for i in range(nv * nd)], cells(E, mem, V(1), nv, 4), cond))
            return Rat(pvar("DEG"))
        if "inverse_lerp_s" in name:
            sv = {"inverse_lerp_s2v2": (3, 2), "inverse_lerp_s3v3": (4, 3)}.get(next((k for k in ("inverse_lerp_s2v2", "inverse_lerp_s3v3") if k in name), None))
            if sv:
                rec.setdefault("inverse", []).append((name, cells(E, mem, V(0), sv[0] * sv[1]), cond))
                put(E, mem, owned, V(1), [Rat(pvar(f"MU{i}")) for i in range(sv[0])])
                if isinstance(V(2), Ptr) and V(2).obj:
                    put(E, mem, owned, V(2), [Rat(pvar("COND"))])
                return GATE(E, "SUCC")
        if "clamp_barycentric" in name:
            n = nv
            rec.setdefault("clamp", []).append((cells(E, mem, V(0), n), cond))
            put(E, mem, owned, V(0), [Rat(pvar(f"CL{i}")) for i in range(n)])
            return None
        if "critical_point_type_" in name:
            d = 3 if "critical_point_type_3d" in name else 2
            rec.setdefault("type", []).append((d, cells(E, mem, V(0), d * d), V(1), cond))
            return Rat(pvar("CPTYPE"))
        if name.startswith("__gmpf_"):
            if name in ("__gmpf_init", "__gmpf_init2", "__gmpf_clear"):
                return None
            if name in ("__gmpf_set_d", "__gmpf_init_set_d"):
                put(E, mem, owned, V(0), [V(1)])
                return None
            if name in ("__gmpf_set_si", "__gmpf_set_ui", "__gmpf_init_set_si", "__gmpf_init_set_ui"):
                put(E, mem, owned, V(0), [V(1)])
                return None
        if "6resizeEm" in name and "vectorId" in name:
            return None
        return base_hook(E, name, args, env, mem, owned, cond, I)
    return h




PRE = "#include <cmath>\n#include <math.h>\nusing std::isnan; using std::isinf;\n#include <ftk/config.hh>\n"


def ld(x, obj, idx):
    """element idx (S) of input array obj"""
    i = (idx * 8).v
    if i.is_const:
        return S(x.D, Rat(pvar(f"{obj}[{int(i.const) // 8}]")))
    return S(x.D, Rat(pvar(UF("ld", (obj, canon(i))))))


def one(x):
    return x.c(1)


def dot(a, b):
    r = None
    for p, q in zip(a, b):
        r = p * q if r is None else r + p * q
    return r


def cp_entry(T, f, nd, unit, ordinal, mode, scalar, jac, degree, where, el=7, robust=True):
    """check_simplex of a regular critical point tracker on one simplex type with a symbolic corner"""
    nv = nd + 1
    dims = ["W", "H", "Z"][:nd]
    ax = "xyz"[:nd]
    arr = ["V0", "V1", "J0", "J1", "S0", "S1"]
    ctr = [f"a{i}" for i in range(nd)]
    co = [f"c{i}" for i in range(nd)]
    lo = [f"l{i}" for i in range(nd)]
    A = [f"A{i}" for i in range(nd)]
    rm = {"EXPLICIT3": "EXPLICIT"}.get(mode, mode)
    ed = 3 if mode == "EXPLICIT3" else nd
    ints = co + ["ts"] + dims + lo + ctr + A
    dbl = arr + ["EX", "R0", "R1", "R2", "B"]
    J = "{" + ",".join(dims) + "}"
    uv = "{{" + ",".join("{" + ",".join(map(str, u)) + "}" for u in unit) + "}}"

    def arrset(o, k, sh):
        return f"{o}.reshape(std::vector<size_t>{{{','.join(sh)}}}); {o}.p._M_impl._M_start = {k}; "
    zs = [f"size_t({d})" for d in dims]
    code = f'extern "C" bool {f}(diy::mpi::communicator *comm, feature_point_t *cp, {",".join("int " + i for i in ints)}, {",".join("double *" + d for d in dbl)}, long SF) {{ {T} &t = *new {T}(*comm); '
    code += f"t.m.ntypes_.assign({nd + 2}, 20); t.m.unit_simplices.clear(); t.m.unit_simplices.resize({nd + 2}); t.m.unit_simplices[{nd}].resize(20); for (int i = 0; i < 20; i ++) t.m.unit_simplices[{nd}][i] = std::vector<std::vector<int>>{uv}; "
    code += "t.m.set_lb_ub(std::vector<int>{" + ",".join(ctr) + ",0}, std::vector<int>{" + ",".join(f"{a}+{b}-1" for a, b in zip(ctr, A)) + ",1000}); "
    code += f"t.array_domain = lattice(std::vector<size_t>{{{','.join(f'size_t({a})' for a in ctr)}}}, std::vector<size_t>{{{','.join(f'size_t({a})' for a in A)}}}); t.domain = t.array_domain; "
    code += f"t.local_array_domain = lattice(std::vector<size_t>{{{','.join(f'size_t({a})' for a in lo)}}}, std::vector<size_t>{{{','.join(zs)}}}); "
    code += f"t.current_timestep = ts; t.mode_phys_coords = REGULAR_COORDS_{rm}; "
    code += f"t.scalar_field_source = {'SOURCE_GIVEN' if scalar else 'SOURCE_NONE'}; t.vector_field_source = SOURCE_GIVEN; t.jacobian_field_source = {'SOURCE_DERIVED' if jac else 'SOURCE_NONE'}; t.is_jacobian_field_symmetric = {'true' if jac == 2 else 'false'}; t.enable_computing_degrees = {'true' if degree else 'false'}; t.enable_robust_detection = {'true' if robust else 'false'}; t.vector_field_scaling_factor = SF; "
    code += "t.field_data_snapshots.emplace_back(); t.field_data_snapshots.emplace_back(); "
    for i in range(2):
        code += "{ auto &s = t.field_data_snapshots[%d]; " % i + arrset("s.vector", f"V{i}", [str(nd)] + zs)
        if jac:
            code += arrset("s.jacobian", f"J{i}", [str(nd), str(nd)] + zs)
        if scalar:
            code += arrset("s.scalar", f"S{i}", zs)
        code += "} "
    if rm == "EXPLICIT":
        code += arrset("t.explicit_coords", "EX", [str(ed)] + zs)
    if mode == "RECTILINEAR":
        code += "t.rectilinear_coords.resize(3); " + "".join(arrset(f"t.rectilinear_coords[{i}]", f"R{i}", [dims[i] if i < nd else "1"]) for i in range(3))
    if mode == "BOUNDS":
        code += "t.bounds_coords = std::vector<double>{B[0],B[1],B[2],B[3],B[4],B[5]}; "
    code += f"simplicial_regular_mesh_element e(std::vector<int>{{{','.join(co)},ts}}, {nd}, {el}); return t.check_simplex(e, *cp); }}"

    def chk(x):
        E = x.E
        rec = getattr(E, "rec", {})
        V = [[x.var(c) + u[i] for i, c in enumerate(co)] + [x.var("ts") + u[nd]] for u in unit]
        L = [x.var(l) for l in lo]
        D = [x.var(d) for d in dims]

        def off(v):
            r, p = None, x.c(1)
            for i in range(nd):
                t = (v[i] - L[i]) * p
                r = t if r is None else r + t
                p = p * D[i]
            return r
        vec = [[ld(x, f"V{u[nd]}", off(v) * nd + j) for j in range(nd)] for v, u in zip(V, unit)]
        S_ = lambda n: S(x.D, GATE(E, n))
        nanf = None
        for r in vec:
            for c in r:
                b = S(x.D, x.D.sign3(Rat(pvar(UF("isnan", (c.v,)))), False, False, True)) | S(x.D, x.D.sign3(Rat(pvar(UF("isinf", (c.v,)))), False, False, True))
                nanf = b if nanf is None else nanf | b
        ok = S_("VALID") & ~nanf & S_("ROBUST") if robust else S_("VALID") & S_("SUCC")
        x.eq("reported iff valid, finite and robustly containing a zero", x.ret, ok)
        rb = rec.get("robust", [])
        x.obl.append(("robust test", len(rb) == (1 if robust else 0), f"{len(rb)} robust containment tests"))
        for name, vf, ind, rcond in rb:
            care = S(x.D, rcond)
            scale = None if "__gmp_expr" in name else x.var("SF")
            x.eq("robust test values", [S(x.D, a) for a in vf], [c if scale is None else (c * scale).fn("int") for r in vec for c in r], care)
            idx = []
            for v in V:
                r, p = None, x.c(1)
                for i in range(nd + 1):
                    t = (v[i] - (x.var(ctr[i]) if i < nd else 0)) * p
                    r = t if r is None else r + t
                    if i < nd:
                        p = p * x.var(A[i])
                idx.append(r)
            x.eq("global vertex indices", [S(x.D, a) for a in ind], idx, care)
        x.obl.append(("inverse", len(rec.get("inverse", [])) == 1, "the barycentric coordinates are not computed once by the inverse interpolation kernel"))
        if len(rec.get("inverse", [])) != 1:
            return
        _, iv, icond = rec["inverse"][0]
        x.eq("inverse interpolation values", [S(x.D, a) for a in iv], [c for r in vec for c in r], S(x.D, icond))
        for cl, cc in rec.get("clamp", []):
            x.eq("clamped coordinates", [S(x.D, a) for a in cl], [x.var(f"MU{i}") for i in range(nv)], S(x.D, cc))
        # clamping is the identity on coordinates that are in range: clamping always or only after a failed inversion are both right
        base, best = x.obl, None
        for mu in ([S_("SUCC").ite(x.var(f"MU{i}"), x.var(f"CL{i}")) for i in range(nv)], [x.var(f"CL{i}") for i in range(nv)]):
            x.obl = []
            fields(x, V, mu, ok, S_, D, off, rec)
            if best is None or sum(not o[1] for o in x.obl) < sum(not o[1] for o in best):
                best = x.obl
        x.obl = base + best

    def fields(x, V, mu, ok, S_, D, off, rec):
        # coordinates
        X = []
        for v in V:
            if mode == "SIMPLE":
                p = v[:nd]
            elif mode == "BOUNDS":
                p = [(v[i] - x.var(ctr[i])) / (x.var(A[i]) - 1) * (x.var(f"B[{2 * i + 1}]") - x.var(f"B[{2 * i}]")) + x.var(f"B[{2 * i}]") for i in range(nd)]
            elif mode == "RECTILINEAR":
                p = [ld(x, f"R{i}", v[i]) for i in range(nd)]
            else:
                r, q = x.c(0), x.c(1)
                for i in range(nd):
                    r = r + v[i] * q
                    q = q * D[i]
                p = [ld(x, "EX", r * ed + i) for i in range(ed)]
            X.append(p + [x.c(0)] * (3 - len(p)) + [v[nd]])
        o = x.out("cp", 4)
        for i in range(3):
            x.eq(f"position {'xyz'[i]}", o[i], dot([p[i] for p in X], mu), ok)
        x.eq("time", o[3], dot([p[3] for p in X], mu), ok)
        x.eq("timestep", x.out("cp", 9, size=4)[8], x.var("ts"), ok)
        if scalar:
            x.eq("scalar", x.out("cp", 6)[5], dot([ld(x, f"S{u[nd]}", off(v)) for v, u in zip(V, unit)], mu), ok)
        # layout of feature_point_t: x[3] t | timestep(32) | scalar[3] (40..64) | v[3] (64..88) | type (88) ordinal (92) tag (96) id (104)
        x.eq("tag", x.out("cp", 13)[12], x.var("EID"), ok)
        x.eq("ordinal", ordcell(x), S_("ORD"), ok)
        if degree:
            S_o = S_("ORD")
            pos = rec.get("positive", [])
            x.obl.append(("orientation", len(pos) == 1, "the orientation is not computed once by the orientation kernel"))
            if pos:
                a, b, pc = pos[0]
                _, vf, ind, _ = rec["robust"][0]
                x.eq("orientation values", [S(x.D, c) for c in a], [S(x.D, c) for c in vf], S(x.D, pc))
                x.eq("orientation indices", [S(x.D, c) for c in b], [S(x.D, c) for c in ind], S(x.D, pc))
            dg = x.var("DEG") * (1 if el == 4 else -1)
            x.eq("type", x.out("cp", 23, size=4)[22], S_o.ite(dg.cmp("==", 1).ite(1, 2), 0), ok)
            return
        tr_ = rec.get("type", [])
        x.obl.append(("type", len(tr_) == 1 and tr_[0][0] == nd, "the type is not computed once by the classification kernel"))
        if len(tr_) == 1:
            _, jm, sym, jc = tr_[0]
            if jac:
                Jm = [[dot([ld(x, f"J{u[nd]}", (off(v) * nd + j) * nd + k) for v, u in zip(V, unit)], mu) for k in range(nd)] for j in range(nd)]
                Jm = Jm if nd == 3 else [[(Jm[j][k] + Jm[k][j]) / 2 for k in range(nd)] for j in range(nd)]
            else:
                Jm = [[x.c(0)] * nd for _ in range(nd)]
            x.eq("Jacobian passed to the classification", [S(x.D, a) for a in jm], [c for r in Jm for c in r], S(x.D, jc))
            x.eq("symmetry flag", S(x.D, sym), jac == 2)
            x.eq("type", x.out("cp", 23, size=4)[22], x.var("CPTYPE"), ok)
    hk = cp_hook(nv, nd)

    def hook(E, *a):
        if E.special is None:
            E.special = lambda n: n[0] == "V" and n[1:2] in "01"
        return hk(E, *a)
    return Entry(f, code, ["comm", "cp"] + ["=" + i for i in ints] + dbl + ["=SF"], chk, where, hook=hook)


def ordcell(x):
    c = x.mem.get("cp", {}).get((rc(92), 1))
    return S(x.D, c).cmp("!=", 0) if c is not None else x.var("cp.ordinal(unwritten)")


def t01():
    pre = PRE + "#include <ftk/filters/critical_point_tracker_2d_regular.hh>\nusing namespace ftk;\ntypedef critical_point_tracker_2d_regular T;\n"
    W = FD + "critical_point_tracker_2d_regular.hh"
    o, i1, i2 = [(0, 0, 0), (1, 0, 0), (1, 1, 0)], [(0, 0, 0), (0, 0, 1), (1, 1, 1)], [(0, 0, 0), (0, 1, 0), (1, 1, 1)]
    L = []
    k = 0
    for mode in ("SIMPLE", "BOUNDS", "RECTILINEAR", "EXPLICIT", "EXPLICIT3"):
        for un, u in (("o", o), ("i", i1), ("j", i2)):
            L.append(cp_entry("T", f"w_cp2_{mode.lower()}_{un}", 2, u, u is o, mode, k % 2 == 0, (0, 1, 2)[k % 3], False, W))
            k += 1
    for el in (4, 7):
        L.append(cp_entry("T", f"w_cp2_degree{el}", 2, o, True, "SIMPLE", False, 1, True, W, el=el))
    return pre, L


def t02():
    pre = PRE + "#include <ftk/filters/critical_point_tracker_3d_regular.hh>\nusing namespace ftk;\ntypedef critical_point_tracker_3d_regular T;\n"
    W = FD + "critical_point_tracker_3d_regular.hh"
    o, i1, i2 = [(0, 0, 0, 0), (1, 0, 0, 0), (1, 1, 0, 0), (1, 1, 1, 0)], [(0, 0, 0, 0), (0, 0, 0, 1), (0, 1, 1, 1), (1, 1, 1, 1)], [(0, 0, 0, 0), (0, 0, 1, 0), (1, 0, 1, 0), (1, 1, 1, 1)]
    L = []
    k = 0
    for mode in ("SIMPLE", "BOUNDS", "RECTILINEAR", "EXPLICIT"):
        for un, u in (("o", o), ("i", i1), ("j", i2)):
            L.append(cp_entry("T", f"w_cp3_{mode.lower()}_{un}", 3, u, u is o, mode, k % 2 == 0, (0, 1, 2)[k % 3], False, W, robust=k != 2))
            k += 1
    return pre, L


# ---------------------------------------------------------------------------------------------- isosurfaces and critical lines

def point_hook(E, name, args, env, mem, owned, cond, I):
    """kernels decided elsewhere, for the isosurface, critical line and vortex trackers"""
    V = lambda j: E.val(env, args[j])
    rec = E.__dict__.setdefault("rec", {})
    if "simplicial_regular_mesh_element5valid" in name:
        return GATE(E, "VALID")
    if "simplicial_regular_mesh_element10is_ordinal" in name:
        return GATE(E, "ORD")
    if "simplicial_regular_mesh_element10to_integer" in name:
        return Rat(pvar("EID"))
    for k, nv, nc in (("robust_critical_point_in_simplex1", 2, 1), ("robust_critical_point_in_simplex2", 3, 2)):
        if k in name:
            rec.setdefault("robust", []).append((name, cells(E, mem, V(0), nv * nc), cells(E, mem, V(1), nv, 4), cond))
            return GATE(E, "ROBUST")
    for k, nv, nc in (("inverse_lerp_s1v1", 2, 1), ("inverse_lerp_s2v2", 3, 2)):
        if k in name:
            sz = 4 if name.split(k)[1].startswith("If") else 8
            rec.setdefault("inverse", []).append((name, cells(E, mem, V(0), nv * nc, sz), cond))
            put(E, mem, owned, V(1), [Rat(pvar(f"MU{i}")) for i in range(nv)], sz)
            if len(args) > 2 and isinstance(V(2), Ptr) and V(2).obj:
                put(E, mem, owned, V(2), [Rat(pvar("COND"))], sz)
            return GATE(E, "SUCC")
    if "clamp_barycentric" in name:
        n = int(re.search(r"clamp_barycentricILi(\d)E", name).group(1))
        sz = 4 if "Ef" in name.split("clamp_barycentricILi")[1][:4] else 8
        rec.setdefault("clamp", []).append((cells(E, mem, V(0), n, sz), cond))
        put(E, mem, owned, V(0), [Rat(pvar(f"CL{i}")) for i in range(n)], sz)
        return None
    if "6resizeEm" in name and ("vectorId" in name or "vectorIf" in name):
        return None
    return base_hook(E, name, args, env, mem, owned, cond, I)


def ldz(x, obj, idx, sz):
    i = (idx * sz).v
    if i.is_const:
        return S(x.D, Rat(pvar(f"{obj}[{int(i.const) // sz}]")))
    return S(x.D, Rat(pvar(UF("ld", (obj, canon(i))))))


class Reg:
    """a regular-mesh tracker with one simplex type, symbolic corner, extents, offsets and fields"""

    def __init__(self, T, nd, k, unit, el="cp"):
        self.T, self.nd, self.k, self.unit, self.nv = T, nd, k, unit, k + 1
        self.dims, self.ctr = ["W", "H", "Z"][:nd], [f"a{i}" for i in range(nd)]
        self.co, self.lo, self.A = [f"c{i}" for i in range(nd)], [f"l{i}" for i in range(nd)], [f"A{i}" for i in range(nd)]
        self.ints = self.co + ["ts"] + self.dims + self.lo + self.ctr + self.A
        self.zs = [f"size_t({d})" for d in self.dims]

    def arr(self, o, k, sh):
        return f"{o}.reshape(std::vector<size_t>{{{','.join(sh)}}}); {o}.p._M_impl._M_start = {k}; "

    def setup(self):
        nd, k = self.nd, self.k
        uv = "{{" + ",".join("{" + ",".join(map(str, u)) + "}" for u in self.unit) + "}}"
        z = lambda v: "{" + ",".join(f"size_t({a})" for a in v) + "}"
        c = f"{self.T} &t = *new {self.T}(*comm); "
        c += f"t.m.ntypes_.assign({nd + 2}, 70); t.m.unit_simplices.clear(); t.m.unit_simplices.resize({nd + 2}); t.m.unit_simplices[{k}].resize(20); for (int i = 0; i < 20; i ++) t.m.unit_simplices[{k}][i] = std::vector<std::vector<int>>{uv}; "
        c += "t.m.set_lb_ub(std::vector<int>{" + ",".join(self.ctr) + ",0}, std::vector<int>{" + ",".join(f"{a}+{b}-1" for a, b in zip(self.ctr, self.A)) + ",1000}); "
        c += f"t.array_domain = lattice(std::vector<size_t>{z(self.ctr)}, std::vector<size_t>{z(self.A)}); t.domain = t.array_domain; "
        c += f"t.local_array_domain = lattice(std::vector<size_t>{z(self.lo)}, std::vector<size_t>{z(self.dims)}); t.current_timestep = ts; "
        c += "t.field_data_snapshots.emplace_back(); t.field_data_snapshots.emplace_back(); "
        return c

    def elem(self, el=7):
        return f"simplicial_regular_mesh_element e(std::vector<int>{{{','.join(self.co)},ts}}, {self.k}, {el}); "

    def verts(self, x):
        return [[x.var(c) + u[i] for i, c in enumerate(self.co)] + [x.var("ts") + u[self.nd]] for u in self.unit]

    def off(self, x, v):
        """linear offset of a vertex in the local arrays"""
        r, p = None, x.c(1)
        for i in range(self.nd):
            t = (v[i] - x.var(self.lo[i])) * p
            r = t if r is None else r + t
            p = p * x.var(self.dims[i])
        return r

    def gidx(self, x, v):
        r, p = None, x.c(1)
        for i in range(self.nd + 1):
            t = (v[i] - (x.var(self.ctr[i]) if i < self.nd else 0)) * p
            r = t if r is None else r + t
            if i < self.nd:
                p = p * x.var(self.A[i])
        return r

    def robust(self, x, values, V):
        rb = x.E.__dict__.get("rec", {}).get("robust", [])
        x.obl.append(("robust test", len(rb) == 1, f"{len(rb)} robust containment tests"))
        for name, vf, ind, rc_ in rb:
            x.eq("robust test values", [S(x.D, a) for a in vf], values, S(x.D, rc_))
            x.eq("global vertex indices", [S(x.D, a) for a in ind], [self.gidx(x, v) for v in V], S(x.D, rc_))

    def inverse(self, x, values):
        iv = x.E.__dict__.get("rec", {}).get("inverse", [])
        x.obl.append(("inverse", len(iv) == 1, "the barycentric coordinates are not computed once by the inverse interpolation kernel"))
        for _, a, c in iv:
            x.eq("inverse interpolation values", [S(x.D, v) for v in a], values, S(x.D, c))
        for a, c in x.E.__dict__.get("rec", {}).get("clamp", []):
            x.eq("clamped coordinates", [S(x.D, v) for v in a], [x.var(f"MU{i}") for i in range(len(a))], S(x.D, c))
        return len(iv) == 1

    def entry(self, f, code, arrs, chk, where, params="", names=(), hook=point_hook, special=None, ty="double"):
        full = f'extern "C" bool {f}(diy::mpi::communicator *comm, feature_point_t *cp, {",".join("int " + i for i in self.ints)}, {",".join(ty + " *" + d for d in arrs)}{params}) {{ {self.setup()}{code}{self.elem()}return t.check_simplex(e, *cp); }}'

        def h(E, *a):
            if special and E.special is None:
                E.special = special
            return hook(E, *a)
        return Entry(f, full, ["comm", "cp"] + ["=" + i for i in self.ints] + list(arrs) + ["=" + n for n in names], chk, where, hook=h)


def common_fields(x, R, X, mu, ok, S_):
    """position, time and bookkeeping"""
    o = x.out("cp", 4)
    for i in range(R.nd):
        x.eq(f"position {'xyz'[i]}", o[i], dot([p[i] for p in X], mu), ok)
    x.eq("time", o[3], dot([p[R.nd] for p in X], mu), ok)
    x.eq("timestep", x.out("cp", 9, size=4)[8], x.var("ts"), ok)
    x.eq("tag", x.out("cp", 13)[12], x.var("EID"), ok)
    x.eq("ordinal", ordcell(x), S_("ORD"), ok)


def contour_entry(nd, f, unit, where, un):
    R = Reg("T", nd, 1, unit)
    code = ""
    for i in range(2):
        code += f"{{ auto &s = t.field_data_snapshots[{i}]; " + R.arr("s.scalar", f"S{i}", R.zs) + (R.arr("s.gradient", f"G{i}", [str(nd)] + R.zs) if nd == 3 else "") + "} "
    code += "t.threshold = TH; "

    def chk(x):
        V = R.verts(x)
        S_ = lambda n: S(x.D, GATE(x.E, n))
        s = [ldz(x, f"S{u[nd]}", R.off(x, v), 8) for v, u in zip(V, unit)]
        g = [a - x.var("TH") for a in s]
        ok = S_("VALID") & S_("ROBUST")
        x.eq("reported iff valid and robustly crossed", x.ret, ok)
        R.robust(x, [(a * 2097152).fn("int") for a in g], V)
        if not R.inverse(x, g):
            return
        mu = [x.var("MU0"), x.var("MU1")]
        common_fields(x, R, V, mu, ok, S_)
        if nd == 3:
            grad = [[ldz(x, f"G{u[nd]}", R.off(x, v) * 3 + j, 8) for j in range(3)] for v, u in zip(V, unit)]
            for j in range(3):
                x.eq(f"gradient {'xyz'[j]}", x.out("cp", 11)[8 + j], dot([r[j] for r in grad], mu), ok)
            x.eq("scalar", x.out("cp", 6)[5], dot(g, mu) + x.var("TH"), ok)
    return R.entry(f, code, ["S0", "S1"] + (["G0", "G1"] if nd == 3 else []), chk, where, ", double TH", ("TH",))


def t03():
    pre = PRE + "#include <ftk/filters/contour_tracker_2d_regular.hh>\n#include <ftk/filters/contour_tracker_3d_regular.hh>\nusing namespace ftk;\n"
    L = []
    for nd in (2, 3):
        z = (0,) * (nd + 1)
        for un, u in enumerate(((1,) + (0,) * nd, (0,) * nd + (1,), (1,) * nd + (0,), (1,) * (nd + 1), (0,) + (1,) * nd)):
            e = contour_entry(nd, f"w_iso{nd}_{un}", [z, u], FD + f"contour_tracker_{nd}d_regular.hh", un)
            e.code = e.code.replace("T &t = *new T", f"typedef contour_tracker_{nd}d_regular T; T &t = *new T")
            L.append(e)
    return pre, L


LINES = {"critical_line_tracker_3d_regular": (), "sujudi_haimes_tracker_3d_regular": ("J",), "levy_degani_seginer_tracker_3d_regular": ("W",), "ridge_valley_tracker_3d_regular": ("J", "S")}


def line_hook(E, name, args, env, mem, owned, cond, I):
    V = lambda j: E.val(env, args[j])
    rec = E.__dict__.setdefault("rec", {})
    if "characteristic_polynomial_3x3" in name:
        rec.setdefault("poly", []).append((cells(E, mem, V(0), 9, 4), cond))
        put(E, mem, owned, V(1), [Rat(pvar(f"P{i}")) for i in range(4)], 4)
        return None
    if "cubic_discriminant" in name:
        rec.setdefault("disc", []).append((cells(E, mem, V(0), 4, 4), cond))
        return Rat(pvar("DISC"))
    return point_hook(E, name, args, env, mem, owned, cond, I)


def line_entry(T, f, unit, where):
    R = Reg(T, 3, 2, unit)
    has = LINES[T]
    code, arrs = "", ["U0", "U1"]
    nch = 3 if has else 2
    for i in range(2):
        code += f"{{ auto &s = t.field_data_snapshots[{i}]; " + R.arr("s.uv", f"U{i}", [str(nch)] + R.zs)
        if "J" in has:
            code += R.arr("s.J", f"J{i}", ["3", "3"] + R.zs)
        if "W" in has:
            code += R.arr("s.vorticity", f"W{i}", ["3"] + R.zs)
        if "S" in has:
            code += R.arr("s.scalar", f"S{i}", R.zs)
        code += "} "
    for k in has:
        arrs += [k + "0", k + "1"]

    def chk(x):
        V = R.verts(x)
        rec = x.E.__dict__.get("rec", {})
        S_ = lambda n: S(x.D, GATE(x.E, n))
        L = lambda k, u, v, n=1, c=0: ldz(x, f"{k}{u[3]}", R.off(x, v) * n + c, 4)
        uv = [[L("U", u, v, nch, j) for j in range(2)] for v, u in zip(V, unit)]
        ok = S_("VALID") & S_("ROBUST")
        x.eq("reported iff valid and robustly crossed", x.ret, ok)
        R.robust(x, [(a * 2097152).fn("int") for r in uv for a in r], V)
        if not R.inverse(x, [a for r in uv for a in r]):
            return
        mu = [x.var(f"CL{i}") for i in range(3)]
        common_fields(x, R, V, mu, ok, S_)
        sc = x.out("cp", 8)
        if has:
            x.eq("residue", sc[5], dot([L("U", u, v, 3, 2) for v, u in zip(V, unit)], mu), ok)
        if "J" in has:
            J = [[dot([L("J", u, v, 9, j * 3 + k) for v, u in zip(V, unit)], mu) for k in range(3)] for j in range(3)]
            po, di = rec.get("poly", []), rec.get("disc", [])
            x.obl.append(("discriminant", len(po) == 1 and len(di) == 1, "the discriminant of the characteristic polynomial is not computed once"))
            if len(po) == 1 and len(di) == 1:
                x.eq("Jacobian passed to the characteristic polynomial", [S(x.D, a) for a in po[0][0]], [c for r in J for c in r], S(x.D, po[0][1]))
                x.eq("discriminant of the characteristic polynomial", [S(x.D, a) for a in di[0][0]], [x.var(f"P{i}") for i in range(4)], S(x.D, di[0][1]))
                x.eq("scaled discriminant", sc[6], x.var("DISC") * 10 ** 10, ok)
        if "W" in has:
            w = [dot([L("W", u, v, 3, j) for v, u in zip(V, unit)], mu) for j in range(3)]
            x.eq("vorticity magnitude", sc[6], (w[0] * w[0] + w[1] * w[1] + w[2] * w[2]).fn("sqrt"), ok)
        if "S" in has:
            x.eq("scalar", sc[7], dot([L("S", u, v) for v, u in zip(V, unit)], mu), ok)
    return R.entry(f, code, arrs, chk, where, hook=line_hook, ty="float")


TRI3 = [[(0, 0, 0, 0), (1, 0, 0, 0), (1, 1, 1, 0)], [(0, 0, 0, 0), (0, 0, 0, 1), (0, 1, 1, 1)], [(0, 0, 0, 0), (0, 1, 0, 0), (1, 1, 1, 1)]]


def t04():
    pre = PRE + "#include <ftk/ndarray/grad.hh>\n" + "".join(f"#include <ftk/filters/{t}.hh>\n" for t in LINES) + "using namespace ftk;\n"
    L = []
    for t in LINES:
        for i, u in enumerate(TRI3):
            L.append(line_entry(t, f"w_{t.split('_tracker')[0]}_{i}", u, FD + t + ".hh"))
    return pre, L, dict(noinline=NOINLINE + ("characteristic_polynomial_3x3", "cubic_discriminant"))


# ---------------------------------------------------------------------------------------------- unstructured critical points

def uns_hook(nd, times):
    nv = nd + 1
    h0 = cp_hook(nv, nd)

    def h(E, name, args, env, mem, owned, cond, I):
        V = lambda j: E.val(env, args[j])
        rec = E.__dict__.setdefault("rec", {})
        if name.endswith("7extrudeEv"):
            return None
        if "11get_simplexE" in name and nd == 3:
            rec.setdefault("simplex", []).append((V(1), V(2), cond))
            put(E, mem, owned, V(3), [Rat(pvar(f"v{i}")) for i in range(nv)], 4)
            return None
        if name == "mk_simplex":
            rec.setdefault("simplex", []).append((V(0), V(1), cond))
            put(E, mem, owned, V(2), [Rat(pvar(f"v{i}")) for i in range(nv)], 4)
            return Rat(pvar("TID"))
        if "14flat_vertex_id" in name:
            return Rat(pvar(UF("vid", (canon(V(1)),))))
        if "16flat_vertex_time" in name:
            return radd(Rat(pvar("ts")), rc(times[int(str(V(1))[1:])]))
        if "10get_coords" in name:
            put(E, mem, owned, V(2), [Rat(pvar(UF("X", (canon(V(1)), canon(rc(j)))))) for j in range(4)])
            return None
        if "10is_ordinal" in name or name == "mk_ordinal":
            rec.setdefault("isord", []).append((V(1), V(2), cond))
            return GATE(E, "ORD")
        if "8tet_type" in name or "12simplex_type" in name:
            return Rat(pvar("TT"))
        if name == "mk_chi":
            return Rat(pvar("CHI"))
        if "jacobian_2dsimplex2" in name:
            rec.setdefault("jac", []).append((cells(E, mem, V(0), 6), cells(E, mem, V(1), 6), cond))
            put(E, mem, owned, V(2), [Rat(pvar(f"JD{i}")) for i in range(4)])
            return None
        return h0(E, name, args, env, mem, owned, cond, I)
    return h


def uns_entry(f, nd, times, scalar, jac, degree, where, nsc=2):
    nv = nd + 1
    T = f"critical_point_tracker_{nd}d_unstructured"
    mock = "Mock2" if nd == 2 else "simplicial_unstructured_extruded_3d_mesh<>"
    code = f'extern "C" bool {f}(diy::mpi::communicator *comm, feature_point_t *cp, int el, int ts, int NV, double *V0, double *V1, double *J0, double *J1, double *S0, double *S1, long SF, void *mk) {{ '
    if nd == 2:
        code += f"auto &t = *new {T}(*comm, std::shared_ptr<simplicial_unstructured_extruded_2d_mesh<>>(new Mock2)); "
    else:
        code += f"auto &t = *new {T}(*comm, std::shared_ptr<simplicial_unstructured_3d_mesh<>>()); "
    code += f"t.current_timestep = ts; t.enable_computing_degrees = {'true' if degree else 'false'}; t.vector_field_scaling_factor = SF; t.field_data_snapshots.emplace_back(); t.field_data_snapshots.emplace_back(); "
    code += "t.scalar_components = std::vector<std::string>(%d); " % nsc

    def arr(o, k, sh):
        return f"{o}.reshape(std::vector<size_t>{{{','.join(sh)}}}); {o}.p._M_impl._M_start = {k}; {o}.p._M_impl._M_finish = {k} + 1; "
    for i in range(2):
        code += "{ auto &s = t.field_data_snapshots[%d]; " % i + arr("s.vector", f"V{i}", [str(nd), "size_t(NV)"])
        if jac:
            code += arr("s.jacobian", f"J{i}", [str(nd), str(nd), "size_t(NV)"])
        if scalar:
            code += arr("s.scalar", f"S{i}", [str(nsc), "size_t(NV)"])
        code += "} "
    code += "return t.check_simplex(el, *cp); }"

    def chk(x):
        E = x.E
        rec = getattr(E, "rec", {})
        S_ = lambda n: S(x.D, GATE(E, n))
        vid = [S(x.D, Rat(pvar(UF("vid", (canon(Rat(pvar(f"v{i}"))),))))) for i in range(nv)]
        X = [[S(x.D, Rat(pvar(UF("X", (canon(Rat(pvar(f"v{i}"))), canon(rc(j))))))) for j in range(4)] for i in range(nv)]
        L = lambda k, i, n, c: ldz(x, f"{k}{times[i]}", vid[i] * n + c, 8)
        vec = [[L("V", i, nd, j) for j in range(nd)] for i in range(nv)]
        for a, b, c in rec.get("simplex", []):
            x.eq("simplex dimension and id", [S(x.D, a), S(x.D, b)], [x.c(nd), x.var("el")], S(x.D, c))
        for a, b, c in rec.get("isord", []):
            x.eq("ordinal query", [S(x.D, a), S(x.D, b)], [x.c(nd), x.var("el")], S(x.D, c))
        nanf = None
        for r in vec:
            for c in r:
                for p in ("isnan", "isinf"):
                    b = S(x.D, x.D.un(lambda a: x.D.sign3(Rat(pvar(UF(p, (a,)))), False, False, True), c.v))
                    nanf = b if nanf is None else nanf | b
        MU = [x.var(f"MU{i}") for i in range(nv)]
        bad = S(x.D, x.D.sign3(Rat(pvar(UF("isnan", (MU[0].v,)))), False, False, True)) | S(x.D, x.D.sign3(Rat(pvar(UF("isinf", (MU[0].v,)))), False, False, True))
        ok = ~nanf & S_("ROBUST") & (S_("SUCC") | ~bad)
        x.eq("reported iff finite and robustly containing a zero", x.ret, ok)
        rb = rec.get("robust", [])
        x.obl.append(("robust test", len(rb) == 1, f"{len(rb)} robust containment tests"))
        for name, vf, ind, c in rb:
            sc = None if "__gmp_expr" in name else x.var("SF")
            x.eq("robust test values", [S(x.D, a) for a in vf], [c_ if sc is None else (c_ * sc).fn("int") for r in vec for c_ in r], S(x.D, c))
            x.eq("global vertex indices", [S(x.D, a) for a in ind], [x.var(f"v{i}") for i in range(nv)], S(x.D, c))
        iv = rec.get("inverse", [])
        x.obl.append(("inverse", len(iv) == 1, "the barycentric coordinates are not computed once by the inverse interpolation kernel"))
        if len(iv) != 1:
            return
        x.eq("inverse interpolation values", [S(x.D, a) for a in iv[0][1]], [c for r in vec for c in r], S(x.D, iv[0][2]))
        mn = lambda a, b: (b < a).ite(b, a)
        mx = lambda a, b: (a < b).ite(b, a)
        cl, used = [], x.c(0)
        for i in range(nv - 1):
            v = mx(mn(1 - used, MU[i]), x.c(0))
            cl.append(v)
            used = used + v
        cl.append(1 - used)
        mu = [S_("SUCC").ite(MU[i], cl[i]) for i in range(nv)]
        o = x.out("cp", 4)
        for i in range(3):
            x.eq(f"position {'xyz'[i]}", o[i], dot([p[i] for p in X], mu), ok)
        x.eq("time", o[3], dot([p[3] for p in X], mu), ok)
        x.eq("timestep", x.out("cp", 9, size=4)[8], x.var("ts"), ok)
        x.eq("tag", x.out("cp", 13)[12], x.var("TID") if nd == 2 else x.var("el"), ok)
        x.eq("ordinal", ordcell(x), S_("ORD"), ok)
        if scalar and not degree:
            for k in range(nsc):
                x.eq(f"scalar {k}", x.out("cp", 6 + k)[5 + k], dot([L("S", i, nsc, k) for i in range(nv)], mu), ok)
        if degree:
            pos = rec.get("positive", [])
            x.obl.append(("orientation", len(pos) == 1, "the orientation is not computed once by the orientation kernel"))
            if pos:
                x.eq("orientation values", [S(x.D, c) for c in pos[0][0]], [S(x.D, c) for c in rb[0][1]], S(x.D, pos[0][2]))
                x.eq("orientation indices", [S(x.D, c) for c in pos[0][1]], [S(x.D, c) for c in rb[0][2]], S(x.D, pos[0][2]))
            x.eq("type", x.out("cp", 23, size=4)[22], S_("ORD").ite((x.var("DEG") * x.var("CHI")).cmp("==", 1).ite(1, 2), 0), ok)
            return
        ty = rec.get("type", [])
        want = jac or (nd == 2 and not scalar)
        x.obl.append(("type", len(ty) == (1 if want else 0), "the type is not computed once by the classification kernel"))
        if want and len(ty) == 1:
            d, jm, sym, c = ty[0]
            if jac:
                Jm = [[dot([L("J", i, nd * nd, j * nd + k) for i in range(nv)], mu) for k in range(nd)] for j in range(nd)]
                got = [S(x.D, a) for a in jm]
                tr = [Jm[k][j] for j in range(nd) for k in range(nd)]
                n0 = len(x.obl)
                x.eq("Jacobian passed to the classification", got, tr, S(x.D, c))
                if not all(q[1] for q in x.obl[n0:]):           # the type of a matrix is that of its transpose
                    alt, keep = x.obl[n0:], x.obl[:n0]
                    x.obl = keep
                    x.eq("Jacobian passed to the classification", got, [v for r in Jm for v in r], S(x.D, c))
                    if not all(q[1] for q in x.obl[n0:]):
                        x.obl = keep + alt
            else:
                jd = rec.get("jac", [])
                x.obl.append(("derived Jacobian", len(jd) == 1, "the Jacobian of the triangle is not computed once"))
                if jd:
                    x.eq("triangle coordinates", [S(x.D, a) for a in jd[0][0]], [X[i][j] for i in range(3) for j in range(2)], S(x.D, jd[0][2]))
                    x.eq("triangle values", [S(x.D, a) for a in jd[0][1]], [a for r in vec for a in r], S(x.D, jd[0][2]))
                    x.eq("Jacobian passed to the classification", [S(x.D, a) for a in jm], [x.var(f"JD{i}") for i in range(4)], S(x.D, c))
            x.eq("symmetry flag", S(x.D, sym), scalar or nd == 3)
            x.eq("type", x.out("cp", 23, size=4)[22], x.var("CPTYPE"), ok)
    hk = uns_hook(nd, times)

    def hook(E, *a):
        if E.special is None:
            E.special = lambda n: n[0] == "V" and n[1:2] in "01" or n.startswith("MU")
        return hk(E, *a)
    return Entry(f, code, ["comm", "cp", "=el", "=ts", "=NV", "V0", "V1", "J0", "J1", "S0", "S1", "=SF", "mk"], chk, where, hook=hook)


def t05():
    pre = PRE + "#include <ftk/ndarray/grad.hh>\n#include <ftk/filters/critical_point_tracker_2d_unstructured.hh>\n#include <ftk/filters/critical_point_tracker_3d_unstructured.hh>\nusing namespace ftk;\n"
    pre += """extern "C" int mk_simplex(int d, int i, int *v); extern "C" int mk_chi(int i); extern "C" bool mk_ordinal(void*, int, int);
struct Mock2 : public simplicial_unstructured_extruded_2d_mesh<> { Mock2() : simplicial_unstructured_extruded_2d_mesh<>(std::shared_ptr<simplicial_unstructured_2d_mesh<>>(new simplicial_unstructured_2d_mesh<>())) {}
 size_t n(int, bool=false) const override { return 0; } size_t n_interval(int, bool=false) const override { return 0; }
 std::set<int> sides(int, int) const override { return {}; } std::set<int> side_of(int, int) const override { return {}; }
 int get_simplex(int d, int i, int v[], bool) const override { return mk_simplex(d, i, v); } int get_triangle_chi(int i) const override { return mk_chi(i); } };
"""
    L = []
    for nd in (2, 3):
        W = FD + f"critical_point_tracker_{nd}d_unstructured.hh"
        for i, (sc, jac, deg) in enumerate(((0, 0, 0), (0, 1, 0), (1, 1, 0), (1, 0, 0)) + (((0, 1, 1),) if nd == 2 else ())):
            tm = [(0, 0, 0, 0), (0, 0, 1, 1), (0, 1, 1, 1), (0, 0, 0, 1)][i % 4][-nd - 1:]
            L.append(uns_entry(f"w_uns{nd}_{sc}{jac}{deg}", nd, tm, bool(sc), bool(jac), bool(deg), W))
    return pre, L, dict(noinline=NOINLINE + ("14flat_vertex_id", "16flat_vertex_time", "10get_coords", "10is_ordinal", "8tet_type", "12simplex_type", "jacobian_2dsimplex2", "get_simplex", "extrude"))


# ---------------------------------------------------------------------------------------------- superconductor vortices

def tdgl_hook(E, name, args, env, mem, owned, cond, I):
    if "mod2pi1" in name:
        return E.D.un(lambda a: Rat(pvar(UF("mod2pi1", (canon(a),)))), E.val(env, args[0]))
    return point_hook(E, name, args, env, mem, owned, cond, I)


def tdgl_entry(f, unit, where):
    import math
    R = Reg("tdgl_vortex_tracker_3d_regular", 3, 2, unit)
    arrs, code = [], ""
    for i in range(2):
        code += f"{{ auto &s = t.field_data_snapshots[{i}]; "
        for n in ("rho", "phi", "re", "im"):
            code += R.arr(f"s.{n}", f"{n}{i}", R.zs)
            arrs.append(f"{n}{i}")
        code += f"for (int i = 0; i < 3; i ++) {{ s.meta.cell_lengths[i] = M{i}[i]; s.meta.origins[i] = M{i}[3+i]; s.meta.B[i] = M{i}[6+i]; }} s.meta.Kex = M{i}[9]; }} "
    arrs += ["M0", "M1"]

    def chk(x):
        V = R.verts(x)
        S_ = lambda n: S(x.D, GATE(x.E, n))
        X, A, rho, phi = [], [], [], []
        for v, u in zip(V, unit):
            M = lambda k: x.var(f"M{u[3]}[{k}]")
            p = [v[j] * M(j) + M(3 + j) for j in range(3)]
            X.append(p + [v[3]])
            by = M(7) > 0
            A.append([by.ite(-M(9), -p[1] * M(8) - M(9)), by.ite(p[0] * M(8), 0), by.ite(-p[0] * M(7), p[1] * M(6))])
            rho.append(ldz(x, f"rho{u[3]}", R.off(x, v), 4))
            phi.append(ldz(x, f"phi{u[3]}", R.off(x, v), 4))
        mod = lambda a: S(x.D, x.D.un(lambda b: Rat(pvar(UF("mod2pi1", (canon(b),)))), a.v))
        delta = []
        for i in range(3):
            j = (i + 1) % 3
            li = sum_([(A[i][k] + A[j][k]) * (X[j][k] - X[i][k]) for k in range(3)]) / 2
            delta.append(mod(phi[j] - phi[i] - li))
        crit = -(delta[0] + delta[1] + delta[2]) / Fraction(2 * math.pi)
        half = x.c(Fraction(1, 2))
        ok = S_("VALID") & ~((crit < half) & (crit > -half))
        x.eq("reported iff valid and the phase winds around the triangle", x.ret, ok)
        ph = [phi[0], phi[0] + delta[0], phi[0] + delta[0] + delta[1]]
        psi = [g for r, p in zip(rho, ph) for g in (r * p.fn("cos"), r * p.fn("sin"))]
        if not R.inverse(x, psi):
            return
        mu = [x.var(f"{'CL' if x.E.rec.get('clamp') else 'MU'}{i}") for i in range(3)]
        common_fields(x, R, X, mu, ok, S_)
    e = R.entry(f, code, arrs, chk, where, hook=tdgl_hook, ty="float")
    return e


def t06():
    pre = PRE + "#include <ftk/ndarray/grad.hh>\n#include <ftk/filters/tdgl_vortex_tracker_3d_regular.hh>\nusing namespace ftk;\n"
    W = FD + "tdgl_vortex_tracker_3d_regular.hh"
    return pre, [tdgl_entry(f"w_tdgl_{i}", u, W) for i, u in enumerate(TRI3)], dict(noinline=NOINLINE + ("mod2pi1",))
