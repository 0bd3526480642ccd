"""Index arithmetic (engine 1 over the containers the code really uses): lattices, regular-mesh elements, arrays."""
from spec import *

LAT = "include/ftk/mesh/lattice.hh"
SRM = "include/ftk/mesh/simplicial_regular_mesh.hh"
NDA = "include/ftk/ndarray.hh"
OPTS = dict(full=True, flags=["-DDIY_NO_THREADS"], noinline=("initialize_subdivision", "12parallel_for"))


def vec(t, v, names):
    return f"std::vector<{t}> {v}{{{','.join(f'{t}({x})' for x in names)}}};"


def m02():
    """lattice"""
    pre = "#include <vector>\n#include <ftk/mesh/lattice.hh>\nusing namespace ftk;\n"
    L = []
    for n in (1, 2, 3, 4):
        R = range(n)
        sig = ",".join(f"size_t s{i},size_t b{i}" for i in R)
        A = [f"={c}{i}" for i in R for c in "sb"]
        C = [f"=c{i}" for i in R]
        csig = ",".join(f"int c{i}" for i in R)
        mk = vec("size_t", "sz", [f"s{i}" for i in R]) + vec("size_t", "st", [f"b{i}" for i in R])
        cc = vec("int", "c", [f"int(c{i}+b{i})" for i in R])
        rg = {f"c{i}": f"s{i}" for i in R}

        def flat(x, n=n):
            r, p = None, x.c(1)
            for i in range(n):
                t = x.var(f"c{i}") * p
                r = t if r is None else r + t
                p = p * x.var(f"s{i}")
            return r

        def prod(x, n=n):
            p = x.c(1)
            for i in range(n):
                p = p * x.var(f"s{i}")
            return p

        def wide(x):
            x.obl.append(("width", not x.E.narrow, "a product of two run-time extents or coordinates is computed in 32 bits: " + "; ".join(x.E.narrow[:2])))

        for how, ctor in (("ctor", "lattice l(st, sz);"), ("reshape", "lattice l; l.reshape(st, sz);"), ("reshapei", "std::vector<int> sti(st.begin(), st.end()), szi(sz.begin(), sz.end()); lattice l; l.reshape(sti, szi);")):
            def k(x, flat=flat, prod=prod, n=n):
                x.eq("to_integer", x.ret, flat(x))
                o = x.out("o", 6 * n + 3)
                x.eq("n", o[0], prod(x))
                x.eq("nd", o[1], n)
                for i in range(n):
                    p = x.c(1)
                    for j in range(i):
                        p = p * x.var(f"s{j}")
                    x.eq(f"start{i}", o[2 + i], x.var(f"b{i}"))
                    x.eq(f"size{i}", o[2 + n + i], x.var(f"s{i}"))
                    x.eq(f"upper{i}", o[2 + 2 * n + i], x.var(f"b{i}") + x.var(f"s{i}") - 1)
                    x.eq(f"uppers{i}", o[2 + 3 * n + i], x.var(f"b{i}") + x.var(f"s{i}") - 1)
                    x.eq(f"lowers{i}", o[2 + 4 * n + i], x.var(f"b{i}"))
                    x.eq(f"lower{i}", o[2 + 5 * n + i], x.var(f"b{i}"))
                wide(x)
            f = f"w_ti{n}{how}"
            L.append(Entry(f, f'extern "C" uint64_t {f}({sig},{csig},uint64_t *o) {{ {mk} {ctor} {cc} o[0] = l.n(); o[1] = l.nd(); auto ub = l.upper_bounds(), lb = l.lower_bounds(); '
                           f'for (int i = 0; i < {n}; i ++) {{ o[2+i] = l.start(i); o[{2 + n}+i] = l.size(i); o[{2 + 2 * n}+i] = l.upper_bound(i); o[{2 + 3 * n}+i] = ub[i]; o[{2 + 4 * n}+i] = lb[i]; o[{2 + 5 * n}+i] = l.lower_bound(i); }} return l.to_integer(c); }}',
                           A + C + ["o"], k, LAT))
        for how, ctor in (("sizes", "lattice l(sz);"), ("resz", "lattice l; l.reshape(sz);"), ("reszi", "std::vector<int> szi(sz.begin(), sz.end()); lattice l; l.reshape(szi);"), ("dims", "std::vector<int> szi(sz.begin(), sz.end()); lattice l(%d, szi.data());" % n)):
            f = f"w_t0{n}{how}"

            def k(x, flat=flat, n=n):
                x.eq("to_integer", x.ret, flat(x))
                x.eq("starts", x.out("o", n), 0)
                x.eq("sizes", [x.out("o", 2 * n)[n + i] for i in range(n)], [x.var(f"s{i}") for i in range(n)])
            L.append(Entry(f, f'extern "C" uint64_t {f}({sig},{csig},uint64_t *o) {{ {mk} {ctor} {vec("int", "c", [f"c{i}" for i in R])} for (int i = 0; i < {n}; i ++) {{ o[i] = l.start(i); o[{n}+i] = l.size(i); }} return l.to_integer(c); }}',
                           A + C + ["o"], k, LAT))
        f = f"w_rt{n}"

        def k(x, n=n):
            x.eq("from_integer(to_integer)", x.out("o", n, size=4), [x.var(f"c{i}") + x.var(f"b{i}") for i in range(n)])
            wide(x)
        L.append(Entry(f, f'extern "C" void {f}({sig},{csig},int *o) {{ {mk} lattice l(st, sz); {cc} auto r = l.from_integer(l.to_integer(c)); for (int i = 0; i < {n}; i ++) o[i] = r[i]; }}',
                       A + C + ["o"], k, LAT, ranges=rg))
        f = f"w_tr{n}"

        def k(x):
            x.eq("to_integer(from_integer)", x.ret, x.var("i"))
            wide(x)
        L.append(Entry(f, f'extern "C" uint64_t {f}({sig},uint64_t i) {{ {mk} lattice l(st, sz); return l.to_integer(l.from_integer(i)); }}', A + ["=i"], k, LAT))
        f = f"w_in{n}"

        def k(x, n=n):
            w = None
            for i in range(n):
                p, b, s = x.var(f"x{i}"), x.var(f"b{i}"), x.var(f"s{i}")
                t = (p >= b) & (p < b + s)
                w = t if w is None else w & t
            x.eq("contains", x.ret, w)
        L.append(Entry(f, f'extern "C" bool {f}({sig},{",".join(f"size_t x{i}" for i in R)}) {{ {mk} lattice l(st, sz); {vec("size_t", "q", [f"x{i}" for i in R])} return l.contains(q); }}', A + [f"=x{i}" for i in R], k, LAT))
    return pre, L


def srm_hook(E, name, args, env, mem, owned, cond, I):
    if "initialize_subdivision" in name:
        return None
    if "parallel_for" in name:
        v = [E.val(env, a) for a in args]
        E.seen.append(v)
        return None
    if name in ("sched_setaffinity", "_ZNSt6thread20hardware_concurrencyEv"):
        return Rat(pvar("ncores"))
    return NotImplemented


def m03():
    """regular-mesh element ids and work indices"""
    pre = "#include <vector>\n#include <cmath>\n#include <ftk/config.hh>\n#include <ftk/mesh/simplicial_regular_mesh.hh>\nusing namespace ftk;\ntypedef simplicial_regular_mesh M;\ntypedef simplicial_regular_mesh_element EL;\n"
    L = []

    def wide(x):
        x.obl.append(("width", not x.E.narrow, "a product of two run-time extents or coordinates is computed in 32 bits, which overflows on meshes with more than 2^31 vertices: " + "; ".join(x.E.narrow[:2])))
    for n in (2, 3, 4):
        R = range(n)
        d = n - 1
        sig = ",".join(f"int s{i},int b{i}" for i in R)
        A = [f"={c}{i}" for i in R for c in "sb"]
        C = [f"=c{i}" for i in R]
        csig = ",".join(f"int c{i}" for i in R)
        cc = vec("int", "c", [f"c{i}+b{i}" for i in R])
        rg = {f"c{i}": f"s{i}" for i in R}
        rg["t"] = "nt"
        mesh = (f"M m({n}); m.ntypes_.resize({n + 1}); m.ntypes_[{d}] = nt; " + vec("size_t", "sz", [f"s{i}" for i in R]) + vec("size_t", "st", [f"b{i}" for i in R]))
        for how, setter in (("lat", "m.set_lb_ub(lattice(st, sz));"), ("vec", "m.set_lb_ub(" + "std::vector<int>{" + ",".join(f"b{i}" for i in R) + "}, std::vector<int>{" + ",".join(f"b{i}+s{i}-1" for i in R) + "});")):
            def flat(x, n=n):
                r, p = None, x.c(1)
                for i in range(n):
                    t = x.var(f"c{i}") * p
                    r = t if r is None else r + t
                    p = p * x.var(f"s{i}")
                return r, p
            f = f"w_id{n}{how}"

            def k(x, flat=flat, n=n):
                fl, pr = flat(x)
                x.eq("to_integer", x.ret, fl * x.var("nt") + x.var("t"))
                o = x.out("o", 1 + 4 * n)
                x.eq("n", o[0], pr * x.var("nt"))
                for i in range(n):
                    x.eq(f"lb{i}", o[1 + i], x.var(f"b{i}"))
                    x.eq(f"ub{i}", o[1 + n + i], x.var(f"b{i}") + x.var(f"s{i}") - 1)
                    x.eq(f"lattice.start{i}", o[1 + 2 * n + i], x.var(f"b{i}"))
                    x.eq(f"lattice.size{i}", o[1 + 3 * n + i], x.var(f"s{i}"))
                wide(x)
            L.append(Entry(f, f'extern "C" uint64_t {f}({sig},{csig},int t,int nt,uint64_t *o) {{ {mesh} {setter} {cc} EL e(c, {d}, t); o[0] = m.n({d}); '
                           f'for (int i = 0; i < {n}; i ++) {{ o[1+i] = m.lb(i); o[{1 + n}+i] = m.ub(i); o[{1 + 2 * n}+i] = m.get_lattice().start(i); o[{1 + 3 * n}+i] = m.get_lattice().size(i); }} return e.to_integer(m); }}',
                           A + C + ["=t", "=nt", "o"], k, SRM, hook=srm_hook))
            f = f"w_idrt{n}{how}"

            def k(x, n=n):
                x.eq("from_integer(to_integer)", x.out("o", n + 2, size=4), [x.var(f"c{i}") + x.var(f"b{i}") for i in range(n)] + [x.var("t"), x.c(n - 1)])
                wide(x)
            L.append(Entry(f, f'extern "C" void {f}({sig},{csig},int t,int nt,int *o) {{ {mesh} {setter} {cc} EL e(c, {d}, t); EL q(m, {d}, e.to_integer(m)); for (int i = 0; i < {n}; i ++) o[i] = q.corner[i]; o[{n}] = q.type; o[{n + 1}] = q.dim; }}',
                           A + C + ["=t", "=nt", "o"], k, SRM, ranges=rg, hook=srm_hook))
            f = f"w_idtr{n}{how}"
            L.append(Entry(f, f'extern "C" uint64_t {f}({sig},int nt,uint64_t i) {{ {mesh} {setter} EL q(m, {d}, i); return q.to_integer(m); }}',
                           A + ["=nt", "=i"], lambda x: (x.eq("to_integer(from_integer)", x.ret, x.var("i")), wide(x)), SRM, hook=srm_hook))
        # work indices: residues of three types per scope; the lattice is a sub-domain with its own bounds
        for scope, tab in ((0, None), (1, "ordinal"), (2, "interval")):
            for r in range(3):
                f = f"w_wi{n}_{scope}_{r}"
                sc = ["ELEMENT_SCOPE_ALL", "ELEMENT_SCOPE_ORDINAL", "ELEMENT_SCOPE_INTERVAL"][scope]

                def k(x, n=n, r=r, scope=scope):
                    x.eq("corner", x.out("o", n, size=4), [x.var(f"c{i}") + x.var(f"b{i}") for i in range(n)])
                    ty = x.out("o", n + 2, size=4)
                    x.eq("type", ty[n], r if scope == 0 else x.var(("p" if scope == 1 else "q") + str(r)))
                    x.eq("dim", ty[n + 1], n - 1)
                    wide(x)
                fl = "".join(f"+(uint64_t)c{i}" + "".join(f"*s{j}" for j in range(i)) for i in R)
                L.append(Entry(f, f'extern "C" void {f}({sig},{csig},{",".join(f"int p{i},int q{i}" for i in range(3))},int *o) {{ M m({n}); m.ntypes_.assign({n + 1}, 3); m.ntypes_ordinal_.assign({n + 1}, 3); m.ntypes_interval_.assign({n + 1}, 3); '
                               f'm.unit_ordinal_simplex_types.resize({n + 1}); m.unit_interval_simplex_types.resize({n + 1}); m.unit_ordinal_simplex_types[{d}] = {{p0,p1,p2}}; m.unit_interval_simplex_types[{d}] = {{q0,q1,q2}}; '
                               + vec("size_t", "sz", [f"s{i}" for i in R]) + vec("size_t", "st", [f"b{i}" for i in R]) +
                               f' lattice l(st, sz); uint64_t j = 3 * (0 {fl}) + {r}; EL e(m, {d}, j, l, {sc}); for (int i = 0; i < {n}; i ++) o[i] = e.corner[i]; o[{n}] = e.type; o[{n + 1}] = e.dim; }}',
                               A + C + [f"={c}{i}" for i in range(3) for c in "pq"] + ["o"], k, SRM, ranges=rg, hook=srm_hook))
        # valid(): every vertex inside the bounds, type in range (unit vertices of a two-vertex type are symbolic)
        usig = ",".join(f"int u{i}" for i in R) + "," + ",".join(f"int v{i}" for i in R)

        us = "{%s}" % ",".join(f"u{i}" for i in R)
        vs = "{%s}" % ",".join(f"v{i}" for i in R)
        for T in (0, 1, -1, 2):
            def k(x, n=n, T=T):
                w = x.c(1) > 0 if 0 <= T < 2 else x.c(1) < 0
                if 0 <= T < 2:
                    for c in "uv":
                        for i in range(n):
                            p, lo = x.var(f"{c}{i}") + x.var(f"c{i}"), x.var(f"b{i}")
                            w = w & (p >= lo) & (p <= lo + x.var(f"s{i}") - 1)
                x.eq("valid", x.ret, w)
            f = f"w_va{n}_{T + 1}"
            oth = "{std::vector<int>(%d),std::vector<int>(%d)}" % (n, n)
            me = "{std::vector<int>%s,std::vector<int>%s}" % (us, vs)
            ty = f"{{{me},{oth}}}" if T == 0 else f"{{{oth},{me}}}"
            L.append(Entry(f, f'extern "C" bool {f}({sig},{csig},{usig}) {{ M m({n}); m.ntypes_.assign({n + 1}, 2); m.unit_simplices.resize({n + 1}); m.unit_simplices[1] = {ty}; {vec("size_t", "sz", [f"s{i}" for i in R])} {vec("size_t", "st", [f"b{i}" for i in R])} '
                           f'm.set_lb_ub(lattice(st, sz)); EL e(std::vector<int>{{{",".join(f"c{i}" for i in R)}}}, 1, {T}); return e.valid(m); }}', A + C + [f"={c}{i}" for c in "uv" for i in R], k, SRM, hook=srm_hook))
        # order: lexicographic by corner, then type; equality compares dimension, type and corner
        for op, nm in (("<", "lt"), (">", "gt"), ("==", "eq"), ("!=", "ne")):
            def k(x, n=n, nm=nm):
                ta, tb = x.var("ta"), x.var("tb")
                if nm in ("eq", "ne"):
                    w = ta.cmp("==", tb) & x.var("da").cmp("==", x.var("db"))
                    for i in range(n):
                        w = w & x.var(f"x{i}").cmp("==", x.var(f"y{i}"))
                    if nm == "ne":
                        w = ~w
                else:
                    l = lambda p, q: p < q if nm == "lt" else p > q
                    w = l(ta, tb)
                    for i in reversed(range(n)):
                        p, q = x.var(f"x{i}"), x.var(f"y{i}")
                        w = l(p, q) | (p.cmp("==", q) & w)
                x.eq(nm, x.ret, w)
            f = f"w_op{n}{nm}"
            L.append(Entry(f, f'extern "C" bool {f}({",".join(f"int x{i},int y{i}" for i in R)},int ta,int tb,int da,int db) {{ EL a(std::vector<int>{{{",".join(f"x{i}" for i in R)}}}, da, ta), b(std::vector<int>{{{",".join(f"y{i}" for i in R)}}}, db, tb); return a {op} b; }}',
                           [f"={c}{i}" for i in R for c in "xy"] + ["=ta", "=tb", "=da", "=db"], k, SRM, hook=srm_hook))
    return pre, L


def pf_hook(j, extra=None):
    """model of parallel_for for loop bodies: record the task count, run the body once on the symbolic task number j(E)"""
    def h(E, name, args, env, mem, owned, cond, I):
        if "parallel_for" in name:
            v = [E.val(env, a) for a in args]
            E.seen.append(v)
            E.invoke_function(v[1], [(j(E), 8)], mem, owned)
            return None
        r = extra(E, name, args, env, mem, owned, cond, I) if extra else NotImplemented
        return r if r is not NotImplemented else srm_hook(E, name, args, env, mem, owned, cond, I)
    return h


def m04():
    """element_for*: every element of the requested scope exactly once"""
    pre = m03()[0]
    L = []
    for n in (3, 4):
        R = range(n)
        d = n - 1
        sig = ",".join(f"int s{i},int b{i}" for i in R)
        A = [f"={c}{i}" for i in R for c in "sb"]
        mesh = (f"M m({n}); m.ntypes_.assign({n + 1}, 3); m.ntypes_ordinal_.assign({n + 1}, 3); m.ntypes_interval_.assign({n + 1}, 3); m.unit_ordinal_simplex_types.resize({n + 1}); m.unit_interval_simplex_types.resize({n + 1}); "
                f"m.unit_ordinal_simplex_types[{d}] = {{p0,p1,p2}}; m.unit_interval_simplex_types[{d}] = {{q0,q1,q2}}; "
                + vec("size_t", "sz", [f"s{i}" for i in R]) + vec("size_t", "st", [f"b{i}" for i in R]) + "lattice l(st, sz);")
        psig = ",".join(f"int p{i},int q{i}" for i in range(3))
        PA = [f"={c}{i}" for i in range(3) for c in "pq"]
        cb = f"[&](EL e) {{ for (int i = 0; i < {n}; i ++) o[i] = e.corner[i]; o[{n}] = e.type; o[{n + 1}] = e.dim; }}"
        for r in range(3):
            for what, call, sc, used in (("all", f"m.set_lb_ub(l); m.element_for({d}, {cb});", 0, n), ("ordinal", f"m.set_lb_ub(l); m.element_for_ordinal({d}, tt, {cb});", 1, n - 1),
                                         ("interval", f"m.set_lb_ub(l); m.element_for_interval({d}, tt, tt+1, {cb});", 2, n - 1), ("sub_all", f"m.element_for({d}, l, ELEMENT_SCOPE_ALL, {cb});", 0, n),
                                         ("sub_ordinal", f"m.element_for({d}, l, ELEMENT_SCOPE_ORDINAL, {cb});", 1, n), ("sub_interval", f"m.element_for({d}, l, ELEMENT_SCOPE_INTERVAL, {cb});", 2, n)):
                def j(E, r=r, used=used):
                    fl, p = rc(0), rc(1)
                    for i in range(used):
                        fl = radd(fl, rmul(Rat(pvar(f"c{i}")), p))
                        p = rmul(p, Rat(pvar(f"s{i}")))
                    return radd(rmul(rc(3), fl), rc(r))

                def k(x, n=n, r=r, sc=sc, used=used):
                    w = [x.var(f"c{i}") + x.var(f"b{i}") for i in range(n)]
                    if used < n:
                        w[n - 1] = x.var("tt")
                    o = x.out("o", n + 2, size=4)
                    x.eq("corner", o[:n], w)
                    x.eq("type", o[n], x.c(r) if sc == 0 else x.var(("p" if sc == 1 else "q") + str(r)))
                    x.eq("dim", o[n + 1], n - 1)
                    x.obl.append(("loops", len(x.E.seen) == 1, f"{len(x.E.seen)} parallel loops instead of one"))
                    if x.E.seen:
                        p = x.c(3)
                        for i in range(used):
                            p = p * x.var(f"s{i}")
                        x.eq("tasks", S(x.D, x.E.seen[0][0]), p)
                    x.obl.append(("width", not x.E.narrow and not x.E.truncs, "the number of tasks or a linear index goes through 32 bits: " + "; ".join((x.E.narrow + x.E.truncs)[:2])))
                f = f"w_ef{n}_{what}_{r}"
                L.append(Entry(f, f'extern "C" void {f}({sig},{psig},int tt,int *o) {{ {mesh} {call} }}', A + PA + ["=tt", "o"], k, SRM, hook=pf_hook(j), ranges={f"c{i}": f"s{i}" for i in R}))
    return pre, L
