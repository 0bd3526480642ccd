"""Array-wide loops (engine 1, one symbolic iteration per loop): derived fields, array bulk operations, the task loop of the thread pool."""
from spec import *
from facts import Facts, poly

GRAD = "include/ftk/ndarray/grad.hh"
OPTS = dict(full=True, flags=["-DDIY_NO_THREADS"], generic=True,
            noinline=("SaIdEE6resizeEm", "SaIfEE6resizeEm", "_ZNSt6vectorIdSaIdEE7reserve", "_ZNSt6vectorIdSaIdEEaSERKS1_", "_ZNSt6vectorIdSaIdEEC2ERKS1_", "_ZNSt6vectorIdSaIdEEC1ERKS1_", "_ZNK3ftk7lattice12from_integerI"))


def arr_hook(E, name, args, env, mem, owned, cond, I):
    V = lambda j: E.val(env, args[j])
    if name in ("_ZNSt6vectorIdSaIdEE6resizeEm", "_ZNSt6vectorIfSaIfEE6resizeEm"):
        # std::vector::resize: the storage becomes a fresh object of n elements
        o = E.newobj("array")
        p, n = V(0), V(1)
        w = 8 if "Id" in name else 4
        q, e = E.peek(mem, p, 8), E.peek(mem, Ptr(p.obj, radd(p.off, rc(8))), 8)
        if isinstance(q, Ptr) and isinstance(e, Ptr) and q.obj and q.obj == e.obj and isinstance(n, Rat) and req(radd(e.off, q.off, -1), rmul(rc(w), n)):
            return None         # unchanged number of elements
        E.poke(mem, owned, p, 8, Ptr(o, rc(0)))
        E.poke(mem, owned, Ptr(p.obj, radd(p.off, rc(8))), 8, Ptr(o, rmul(rc(w), n)))
        E.poke(mem, owned, Ptr(p.obj, radd(p.off, rc(16))), 8, Ptr(o, rmul(rc(w), n)))
        return None
    if name in ("_ZNSt6vectorIdSaIdEEaSERKS1_", "_ZNSt6vectorIdSaIdEEC2ERKS1_", "_ZNSt6vectorIdSaIdEEC1ERKS1_"):
        # copy of the elements: the copy denotes the same values (the analysed operations do not write the source afterwards)
        p, q = V(0), V(1)
        for k in (0, 8):
            E.poke(mem, owned, Ptr(p.obj, radd(p.off, rc(k))), 8, E.peek(mem, Ptr(q.obj, radd(q.off, rc(k))), 8))
        E.poke(mem, owned, Ptr(p.obj, radd(p.off, rc(16))), 8, E.peek(mem, Ptr(q.obj, radd(q.off, rc(8))), 8))
        return p
    if name.startswith("_ZNK3ftk7lattice12from_integerI") and "St6vectorIi" not in name[40:]:
        # the K-th index of a lattice (its own property): one symbolic digit per dimension
        p, this, i = V(0), V(1), V(2)
        rd = lambda k: E.peek(mem, Ptr(this.obj, radd(this.off, rc(k))), 8)
        st, sz = rd(LAT_ST), rd(LAT_SZ)
        m = radd(rd(LAT_SZ + 8).off, sz.off, -1)
        nd = int(m.const) // 8
        o = E.newobj("heap")
        for j in range(nd):
            E.poke(mem, owned, Ptr(o, rc(4 * j)), 4, E.D.un(lambda a: Rat(pvar(UF("digit", (canon(rc(j)), canon(a))))), i))
        E.poke(mem, owned, p, 8, Ptr(o, rc(0)))
        for k in (8, 16):
            E.poke(mem, owned, Ptr(p.obj, radd(p.off, rc(k))), 8, Ptr(o, rc(4 * nd)))
        if not hasattr(E, "digit_lattices"):
            E.digit_lattices = []
        E.digit_lattices.append(([E.peek(mem, Ptr(st.obj, radd(st.off, rc(8 * j))), 8) for j in range(nd)], [E.peek(mem, Ptr(sz.obj, radd(sz.off, rc(8 * j))), 8) for j in range(nd)]))
        return None
    return NotImplemented


LAT_ST, LAT_SZ = 0, 24


def ldv(x, obj, off):
    """input array element at a (gated) element index"""
    def g(a):
        if a.is_const:
            return Rat(pvar(f"{obj}[{int(a.const)}]"))
        return Rat(pvar(UF("ld", (obj, canon(rmul(a, rc(8)))))))
    return S(x.D, x.D.un(g, off.v))


def dirtyv(x, obj, off):
    """element of an array filled by an earlier loop"""
    n = min(l.n for l in x.E.loops if any(w[0] == obj for w in l.writes))
    n = next(l.ctx[0] if l.ctx else l.n for l in x.E.loops if l.n == n)
    return S(x.D, x.D.un(lambda a: Rat(pvar(UF("dirty", (n, obj, canon(rmul(a, rc(8))))))), off.v))


class NotDecoded(Exception):
    pass


def coef(p, var):
    """(coefficient of var, rest) of a polynomial linear in var"""
    a, b = {}, {}
    for m, c in p.t.items():
        d = dict(m)
        e = d.get(var, 0)
        if e > 1:
            raise NotDecoded(f"{var} is not linear")
        if e:
            a[tuple((v, k) for v, k in m if v != var)] = c
        else:
            b[m] = c
    return Poly(a), Poly(b)


def decode(off, C, sizes, loops):
    """element index of an array whose first dimensions are constant (C values together) and whose other extents are `sizes`:
    returns (component, [(start, step, loop)] per remaining dimension)"""
    if off.d != P1:
        raise NotDecoded("fractional index")
    p = off.n
    strides = [{(): Fraction(C)}]
    m = ()
    for s in sizes:
        m = tuple(sorted(m + ((s, 1),)))
        strides.append({m: Fraction(C)})
    use = {}
    for l in loops:
        c, p = coef(p, f"K{l}")
        if not c.t:
            continue
        for d in range(len(sizes)):
            for sg in (1, -1):
                if {k: v * sg for k, v in c.t.items()} == strides[d]:
                    if d in use:
                        raise NotDecoded("two loops index one dimension")
                    use[d] = (l, sg)
    rest = {k: v for k, v in p.t.items()}
    out = []
    for d in range(len(sizes)):
        l, sg = use.get(d, (None, 1))
        top = 0
        if sg < 0:       # counts down from the end: the start is size - 1 - a
            (k, v), = strides[d + 1].items()
            rest[k] = rest.get(k, 0) - v
            top = 1
        out.append([None, sg, l, top])
    comp = None
    for d in reversed(range(len(sizes))):
        (k, v), = strides[d].items()
        r = rest.pop(k, Fraction(0))
        if d == 0:
            a = r // v
            comp = r - a * v
        else:
            a = r / v
            if a.denominator != 1:
                raise NotDecoded("index is not a multiple of its stride")
        out[d][0] = int(a)
    if any(rest.values()):
        raise NotDecoded(f"unexpected index {off}")
    return int(comp), out


def field(C, sizes, lo, hi, want, div=False):
    """obligations: one symbolic iteration of every loop nest writes, at its own cell, the defined value; together the nests write every component on exactly the cells lo <= idx < hi.
    want(x, comp, idx) is the definition (in units of the output); lo/hi: constants or functions of x"""
    def k(x):
        res = x.ret.v
        if not (isinstance(res, Ptr) and res.obj):
            x.obl.append(("result", False, "the result is not the freshly allocated array"))
            return
        seen = {}
        x.D.ints = lambda v: v in sizes or (isinstance(v, str) and v[0] == "K" and v[1:].isdigit())
        for l in x.E.loops:
            for o, off, size, v in l.writes:
                if o != res.obj:
                    continue
                try:
                    c, dims = decode(rdiv(off, rc(8)), C, sizes, l.ctx + (l.n,))
                except NotDecoded as e:
                    x.obl.append(("index", False, f"a loop writes the element at {str(off)[:200]}: {e}"))
                    continue
                idx, care, dom = [], S(x.D, True), S(x.D, True)
                for d, (a, sg, lp, top) in enumerate(dims):
                    n = x.var(sizes[d])
                    L, H = (lo[d] if not callable(lo[d]) else lo[d](x)), (n - hi[d])
                    if lp is None:
                        if isinstance(a, int):
                            x.obl.append((f"dimension {d}", False, f"component {c} is written only at index {a} of dimension {d}, or several iterations write one cell"))
                        continue
                    kv = x.var(f"K{lp}")
                    i = (kv + a) if sg > 0 else (n + (a) - kv)
                    idx.append(i)
                    care = care & (kv >= 0)
                    if sg > 0:
                        x.eq(f"component {c}: first index of dimension {d}", x.c(a), L)
                        dom = dom & (i < H)
                    else:
                        x.eq(f"component {c}: first index of dimension {d}", n + a, H - 1)
                        dom = dom & (i >= L)
                if len(idx) < len(sizes):
                    continue
                x.eq(f"component {c}: cells written", S(x.D, l.exec), dom, care)
                x.eq(f"component {c}", S(x.D, v), want(x, c, idx), S(x.D, l.exec) & care)
                seen[c] = seen.get(c, 0) + 1
        for c in range(C):
            x.obl.append((f"component {c} written", seen.get(c, 0) == 1, f"component {c} of the result is written by {seen.get(c, 0)} loops, expected one"))
        for l in x.E.loops:
            for o, off, size, v in l.writes:
                if o != res.obj and not o.startswith(("array", "stack", "heap")):
                    x.obl.append(("side effect", False, f"a loop writes {o}"))
    return k


def lin(idx, sizes, x, C, c):
    """element index c + C * (i + W * (j + H * ...))"""
    r, p = x.c(c), x.c(C)
    for i, s in zip(idx, sizes):
        r = r + p * i
        p = p * x.var(s)
    return r


def d02():
    """derived fields"""
    pre = "#include <ftk/config.hh>\n#include <ftk/ndarray/grad.hh>\nusing namespace ftk;\n"
    SZ = ["w", "h", "d", "t"]
    L = []

    def arr(name, dims):
        pr = "1"
        s = []
        for dd in dims:
            s.append(f"size_t({pr})")
            pr += "*" + str(dd)
        return (f"ndarray<double> {name}; {name}.dims = {{{','.join(f'size_t({x})' for x in dims)}}}; {name}.s = {{{','.join(s)}}}; ((double**)&{name}.p)[0] = p{name}; ((double**)&{name}.p)[1] = p{name} + {pr}; ")

    def add(name, call, nd, Cin, C, lo, hi, want, dims_in, extra="", arrs=("a",)):
        sizes = SZ[:nd]
        f = "w_" + name
        sig = ", ".join([f"double *p{a}" for a in arrs] + [f"size_t {s}" for s in sizes])
        code = f'extern "C" double *{f}({sig}) {{ ' + "".join(arr(a, dims_in) for a in arrs) + f"ndarray<double> g = {call}; " + "".join(f"((double**)&{a}.p)[0] = 0; " for a in arrs) + "return ((double**)&g.p)[0]; }"
        L.append(Entry(f, code, [f"p{a}" for a in arrs] + [f"={s}" for s in sizes], field(C, sizes, lo, hi, want), GRAD, hook=arr_hook))

    def at(x, idx, sizes, C, c, a="a"):
        return ldv(x, "p" + a, lin(idx, sizes, x, C, c))

    def sh(idx, d, o):
        return [i + o if j == d else i for j, i in enumerate(idx)]

    def diff(nd, sizes, Cin, clampd=None):
        """central difference of input component c along dimension d (twice the derivative per index unit)"""
        def f(x, c, idx, d):
            def g(o):
                q = sh(idx, d, o)
                if clampd:
                    q = list(q)
                    for j in range(nd):
                        n1 = x.var(sizes[j]) - 1
                        z = (0 < q[j]).ite(q[j], x.c(0)) if False else (q[j] > 0).ite(q[j], 0)
                        q[j] = (n1 < z).ite(n1, z)
                return at(x, q, sizes, Cin, c)
            return g(1) - g(-1)
        return f
    for nd, t, scale, cl in ((2, 0, 1, True), (2, 1, Fraction(1, 2), False), (3, 0, Fraction(1, 2), False), (3, 1, Fraction(1, 2), False)):
        n = nd + t
        df = diff(nd, SZ, 1, cl)

        def want(x, c, idx, nd=nd, df=df, scale=scale):
            r = df(x, 0, idx, c) * scale
            return r * (x.var(SZ[c]) - 1) if nd == 2 else r
        m = 0 if cl else 1
        add(f"gradient{nd}D{'t' if t else ''}", f"gradient{nd}D{'t' if t else ''}<double>(a)", n, 1, nd, [m] * nd + [0] * t, [m] * nd + [0] * t, want, SZ[:n])
    for nd, t, tp, scale, m, name in ((2, 0, "<double, false>", 1, 0, "jacobian2D"), (2, 0, "<double, true>", 1, 0, "jacobian2Ds"), (2, 1, "<double>", Fraction(1, 2), 2, "jacobian2Dt"),
                                      (3, 0, "<double>", Fraction(1, 2), 2, "jacobian3D"), (3, 1, "<double>", Fraction(1, 2), 2, "jacobian3Dt")):
        n = nd + t
        df = diff(nd, SZ, nd, nd == 2 and not t)

        def want(x, c, idx, nd=nd, df=df, scale=scale, sym=name == "jacobian2Ds"):
            i, j = c % nd, c // nd          # entry (i, j): derivative of component i along j
            e = lambda i, j: df(x, i, idx, j) * scale * ((x.var(SZ[j]) - 1) if nd == 2 else 1)
            if sym and i != j:
                return (e(0, 1) + e(1, 0)) * Fraction(1, 2)
            return e(i, j)
        add(name, name.rstrip("s") + tp + "(a)", n, nd, nd * nd, [m] * nd + [0] * t, [m] * nd + [0] * t, want, [nd] + SZ[:n])
    df3 = diff(3, SZ, 3)

    def want(x, c, idx):
        a, b = (c + 1) % 3, (c + 2) % 3
        return df3(x, b, idx, a) - df3(x, a, idx, b)
    add("vorticity3D", "vorticity3D<double>(a)", 3, 3, 3, [1] * 3, [1] * 3, want, [3] + SZ[:3])

    def want(x, c, idx):
        a, b = (c + 1) % 3, (c + 2) % 3
        v, w = (lambda k: at(x, idx, SZ, 3, k, "a")), (lambda k: at(x, idx, SZ, 3, k, "b"))
        return v(a) * w(b) - v(b) * w(a)
    add("cross_product3D", "cross_product3D<double>(a, b)", 3, 3, 3, [1] * 3, [1] * 3, want, [3] + SZ[:3], arrs=("a", "b"))
    for name, tr in (("JvT_dot_v", True), ("Jv_dot_v", False)):
        def want(x, c, idx, tr=tr):
            J = next(w[0] for l in x.E.loops for w in l.writes if w[0].startswith("array"))
            r = x.c(0)
            for k in range(3):
                i, j = (k, c) if tr else (c, k)
                r = r + dirtyv(x, J, lin(idx, SZ, x, 9, i + 3 * j)) * at(x, idx, SZ, 3, k)
            return r
        add(name, name + "<double>(a)", 3, 3, 3, [1] * 3, [1] * 3, want, [3] + SZ[:3])
    return pre, L


# ------------------------------------------------------------------ ndarray
NDA = "include/ftk/ndarray.hh"
NDB = "include/ftk/ndarray/ndarray_base.hh"


def prod(xs):
    r = P1
    for x in xs:
        r = pmul(r, pvar(x) if isinstance(x, str) else x)
    return r


def mk(name, dims, ptr=None, ncd=0, tv=0):
    """C++: an ndarray<double> with given extents whose storage is the input object"""
    pr = "size_t(1)"
    s = []
    for d in dims:
        s.append(pr)
        pr += f"*{d}"
    ptr = ptr or "p" + name
    return (f"ndarray<double> {name}; {name}.dims = {{{','.join(f'size_t({d})' for d in dims)}}}; {name}.s = {{{','.join(s)}}}; {name}.ncd = {ncd}; {name}.tv = {tv}; "
            f"((double**)&{name}.p)[0] = {ptr}; ((double**)&{name}.p)[1] = {ptr} + {pr}; ")


def unmk(*names):
    return "".join(f"((double**)&{n}.p)[0] = 0; " for n in names)


def pk(x, off, size=8, obj="o"):
    return x.E.peek(x.mem, Ptr(obj, rc(off)), size)


def peq(x, label, got, want, facts=None):
    got = got.v if isinstance(got, S) else got
    ok = isinstance(got, Rat) and not isinstance(got, bool) and req(got, Rat(want) if isinstance(want, Poly) else want)
    x.obl.append((label, ok, "" if ok else f"{label}: code computes {str(got)[:300]} but the definition gives {str(Rat(want) if isinstance(want, Poly) else want)[:300]}"))


DUMP = "for (int j = 0; j < int({a}.dims.size()); j ++) o[4+j] = {a}.dims[j]; for (int j = 0; j < int({a}.s.size()); j ++) o[12+j] = {a}.s[j]; o[0] = {a}.dims.size(); o[1] = {a}.s.size(); o[2] = ((double**)&{a}.p)[1] - ((double**)&{a}.p)[0]; o[3] = {a}.ncd * 2 + {a}.tv; "


def shape_is(x, dims, ncd=None, tv=0, n=None):
    """the dumped array has these extents, column-major strides and as many elements"""
    dims = [pvar(d) if isinstance(d, str) else d if isinstance(d, Poly) else pconst(d) for d in dims]
    peq(x, "number of dimensions", pk(x, 0), pconst(len(dims)))
    peq(x, "number of strides", pk(x, 8), pconst(len(dims)))
    peq(x, "number of elements", pk(x, 16), prod(dims))
    for j, d in enumerate(dims):
        peq(x, f"dim({j})", pk(x, 32 + 8 * j), d)
        peq(x, f"stride {j}", pk(x, 96 + 8 * j), prod(dims[:j]))
    if ncd is not None:
        peq(x, "multicomponents/has_time", pk(x, 24), pconst(2 * ncd + tv))


def nowrap(x):
    t = sorted(set(x.E.truncs))
    x.obl.append(("sizes are not truncated", not t, "" if not t else f"a product of run-time sizes is truncated to 32 bits: {'; '.join(t)[:400]}"))


def d01():
    """ndarray: addressing, shape, element-wise and structural operations"""
    pre = "#include <ftk/config.hh>\n#include <ftk/ndarray.hh>\nusing namespace ftk;\n"
    L = []

    def add(name, code, args, chk, where=NDA, **kw):
        L.append(Entry("w_" + name, code, args, chk, where, hook=arr_hook, **kw))
    # --- addressing
    for n in range(1, 8):
        D = [f"n{j}" for j in range(n)]
        I = [f"i{j}" for j in range(n)]
        sig = "double *pa, " + ", ".join(f"size_t {v}" for v in D + I)
        args = ["pa"] + [f"={v}" for v in D + I]
        want = P0
        for j in range(n):
            want = padd(want, pmul(pvar(f"i{j}"), prod(D[:j])))

        def chk(x, want=want):
            r = x.ret.v
            off = Rat(pscale(want, 8))
            ok = isinstance(r, Ptr) and r.obj == "pa" and req(r.off, off)
            x.obl.append(("address", ok, "" if ok else f"the element at the given indices is at {str(r)[:300]}, but the definition gives {off}"))

        def chkv(x, want=want):
            peq(x, "index", x.ret, want)
        cs = ",".join(I)
        for nm, ex, cst in (("at", f"A.at({cs})", 0), ("atc", f"A.at({cs})", 1), ("op", f"A({cs})", 0), ("opc", f"A({cs})", 1)):
            q = "const ndarray<double>& A = A0;" if cst else "ndarray<double>& A = A0;"
            add(f"{nm}{n}", f'extern "C" const double *w_{nm}{n}({sig}) {{ {mk("A0", D, "pa")} {q} const double *r = &{ex}; {unmk("A0")} return r; }}', args, chk)
        add(f"get{n}", f'extern "C" double w_get{n}({sig}) {{ {mk("A", D, "pa")} double r = A.get({cs}); {unmk("A")} return r; }}', args,
            lambda x, want=want: x.eq("get", x.ret, ldv(x, "pa", S(x.D, Rat(want)))))
        for nm, ty, cst in (("atv", "size_t", 0), ("atvc", "size_t", 1), ("ati", "int", 0), ("atic", "int", 1), ("opv", "size_t", 0), ("opi", "int", 0)):
            q = "const ndarray<double>& A = A0;" if cst else "ndarray<double>& A = A0;"
            ex = "A(idx)" if nm.startswith("op") else "A.at(idx)"
            add(f"{nm}{n}", f'extern "C" const double *w_{nm}{n}({sig}) {{ {mk("A0", D, "pa")} {q} std::vector<{ty}> idx{{{",".join(f"{ty}({v})" for v in I)}}}; const double *r = &{ex}; {unmk("A0")} return r; }}', args, chk)
        for nm, cst in (("ata", 0), ("atac", 1)):
            q = "const ndarray<double>& A = A0;" if cst else "ndarray<double>& A = A0;"
            add(f"{nm}{n}", f'extern "C" const double *w_{nm}{n}({sig}) {{ {mk("A0", D, "pa")} {q} size_t idx[] = {{{cs}}}; const double *r = &A.at(idx); {unmk("A0")} return r; }}', args, chk)
        add(f"index{n}", f'extern "C" size_t w_index{n}({sig}) {{ {mk("A", D, "pa")} std::vector<size_t> idx{{{cs}}}; size_t r = A.index(idx); {unmk("A")} return r; }}', args, chkv, NDB)
        # --- shape
        rs = "ndarray<double> A; "
        so = ", ".join(f"size_t {v}" for v in D) + ", size_t *o"
        ao = [f"={v}" for v in D] + ["o"]

        def chs(x, D=D):
            shape_is(x, D, 0, 0)
            nowrap(x)
        for nm, body in (("list", f"A.reshape({','.join(D)});"), ("vec", f"std::vector<size_t> d{{{','.join(D)}}}; A.reshape(d);"), ("vint", f"std::vector<int> d{{{','.join(f'int({v})' for v in D)}}}; ((ndarray_base&)A).reshape(d);"),
                         ("ptr", f"size_t d[] = {{{','.join(D)}}}; A.reshape({n}, d);"), ("bptr", f"size_t d[] = {{{','.join(D)}}}; ((ndarray_base&)A).reshape(size_t({n}), d);"),
                         ("like", f"ndarray<float> B; B.reshape({','.join(D)}); A.reshape(B);"), ("ctor", f"A = ndarray<double>(std::vector<size_t>{{{','.join(D)}}});")):
            add(f"reshape_{nm}{n}", f'extern "C" void w_reshape_{nm}{n}({so}) {{ {rs}{body} {DUMP.format(a="A")} }}', ao, chs)

        def chn(x, D=D):
            peq(x, "nelem", x.ret, prod(D))
            nowrap(x)
        E_ = f'extern "C" size_t w_nelem{n}(double *pa, {", ".join(f"size_t {v}" for v in D)}) {{ {mk("A", D, "pa")} size_t r = A.nelem(); {unmk("A")} return r; }}'
        add(f"nelem{n}", E_, ["pa"] + [f"={v}" for v in D], chn, NDB, facts=Facts([f"n{j}-1" for j in range(n)], [f"n{j}" for j in range(n)]))
    d01_ops(L, add)
    return pre, L


def either(x, alts):
    """the obligations of the first alternative that holds, else those of the first"""
    at = len(x.obl)
    first = None
    for f in alts:
        f()
        got = x.obl[at:]
        del x.obl[at:]
        if all(o[1] for o in got):
            x.obl += got
            return
        first = first or got
    x.obl += first


def flat(x, obj, size, want, what="element"):
    """one symbolic iteration of one loop writes element K (or size - 1 - K: either direction) with the defined value, for exactly 0 <= K < size"""
    hits = 0
    for l in x.E.loops:
        k = x.var(f"K{l.n}")
        for o, off, sz, v in l.writes:
            if o != obj:
                continue
            hits += 1
            i = S(x.D, off) * Fraction(1, 8)
            if not (isinstance(i.v, Rat) and isinstance(size.v, Rat) and req(i.v, (size - 1 - k).v)):
                x.eq(f"{what}: index written by iteration K", i, k)
                i = k
            # iterations 0 .. size-1 are executed; at iteration `size` the loop has been left
            x.eq(f"{what}: iterations", S(x.D, l.exec), (k < size), (k >= 0) & (k <= size))
            x.eq(f"{what}", S(x.D, v), want(i, l), (k >= 0) & (k < size))
    x.obl.append((f"{what}: written once", hits == 1, f"the {what}s of the result are written by {hits} loop bodies, expected one"))
    for l in x.E.loops:
        for o, off, sz, v in l.writes:
            if o != obj and not o.startswith(("array", "stack", "heap")):
                x.obl.append(("side effect", False, f"a loop writes {o}"))


class Cur:
    """reads of the array that the loop updates in place: element K is read at iteration K before it is written"""

    def __init__(self, x, l):
        self.x, self.l, self.D, self.c, self.var = x, l, x.D, x.c, x.var

    def rd(self, obj, k):
        if self.l is not None and obj == "pa":
            return S(self.D, self.D.un(lambda a: Rat(pvar(UF("dirty", (self.l.n, obj, canon(rmul(a, rc(8))))))), k.v))
        return ldv(self.x, obj, k)


def clampv(v, lo, hi):
    m = (lo < v).ite(v, lo)
    return (hi < m).ite(hi, m)


def d01_ops(L, add):
    D = ["n0", "n1", "n2"]
    N = prod(D)
    sg = ", ".join(f"size_t {v}" for v in D)
    F = lambda: Facts([f"n{j}-1" for j in range(3)], D)
    na = ["=" + v for v in D]
    n = lambda x: S(x.D, Rat(N))
    A = lambda x, k: x.rd("pa", k)
    B = lambda x, k: x.rd("pb", k)
    rets = "return ((double**)&{0}.p)[0];"

    def ew(name, stmt, want, two=False, sc=False, res=None, shp=True, ncdtv=(1, 1), pre=""):
        """res: name of the result array (None: in place in a)"""
        f = "w_" + name
        sig = "double *pa, " + ("double *pb, " if two else "") + ("double c, " if sc else "") + sg + ", size_t *o"
        args = ["pa"] + (["pb"] if two else []) + (["=c"] if sc else []) + na + ["o"]
        code = f'extern "C" double *{f}({sig}) {{ {mk("a", D, "pa", 1, 1)} ' + (mk("b", D, "pb", 1, 1) if two else "") + f"{pre} {stmt} {DUMP.format(a=res or 'a')} double *q = ((double**)&{res or 'a'}.p)[0]; {unmk('a', *(['b'] if two else []))} " + (f"((double**)&{res}.p)[0] = 0; " if res and res not in "ab" else "") + "return q; }"

        def chk(x):
            r = x.ret.v
            ok = isinstance(r, Ptr) and r.obj and (r.obj == "pa" if not res else True) and req(r.off, rc(0))
            x.obl.append(("result storage", ok, "" if ok else f"the result is stored at {r}"))
            if not ok:
                return
            x.D.ints = lambda v: v in D or (isinstance(v, str) and v[0] == "K" and v[1:].isdigit())
            if want:
                flat(x, r.obj, n(x), lambda k, l: want(Cur(x, l if r.obj == "pa" else None), k))
            else:
                w = [w for l in x.E.loops for w in l.writes if not w[0].startswith(("stack", "heap"))]
                x.obl.append(("no element changes", not w, f"elements of {w} are written"))
            if shp:
                shape_is(x, D, *ncdtv)
            nowrap(x)
        add(name, code, args, chk, facts=F())
    c = lambda x: x.var("c")
    ew("plus_assign", "a += b;", lambda x, k: A(x, k) + B(x, k), two=True)
    ew("times_assign", "a *= c;", lambda x, k: A(x, k) * c(x), sc=True)
    ew("div_assign", "a /= c;", lambda x, k: A(x, k) / c(x), sc=True)
    ew("fill", "a.fill(c);", lambda x, k: c(x), sc=True)
    ew("clamp", "a.clamp(0.25, c);", lambda x, k: clampv(A(x, k), x.c(Fraction(1, 4)), c(x)), sc=True)
    ew("plus", "ndarray<double> r = a + b;", lambda x, k: A(x, k) + B(x, k), two=True, res="r", ncdtv=(None, 0))
    ew("times", "ndarray<double> r = a * c;", lambda x, k: A(x, k) * c(x), sc=True, res="r", ncdtv=(None, 0))
    ew("assign_empty", "ndarray<double> r; r += a;", None, res="r")
    ew("copy_ctor", "ndarray<double> r(a);", None, res="r")
    ew("copy_assign", "ndarray<double> r; r = a;", None, res="r")
    ew("from_ptr", "ndarray<double> r; std::vector<size_t> d{n0, n1, n2}; r.from_array(pa, d);", lambda x, k: A(x, k), res="r", ncdtv=(0, 0))
    ew("ctor_ptr", "std::vector<size_t> d{n0, n1, n2}; ndarray<double> r(pa, d);", lambda x, k: A(x, k), res="r", ncdtv=(0, 0))
    ew("from_float", "ndarray<double> r; ndarray<double>::from(a, r);".replace("ndarray<double>::from(a, r)", "r.from_array<double>(a)"), lambda x, k: A(x, k), res="r")
    ew("convert_ctor", "ndarray<double> r; ndarray<float> q; q.from_array<double>(a); r = q;", None, res="r") if False else None
    ew("reshape_val", "ndarray<double> r; r.reshape(std::vector<size_t>{n0, n1, n2}, c);", lambda x, k: c(x), sc=True, res="r", ncdtv=(0, 0))
    ew("ctor_val", "std::vector<size_t> d{n0, n1, n2}; ndarray<double> r(d, c);", lambda x, k: c(x), sc=True, res="r", ncdtv=(0, 0))
    ew("swap", "ndarray<double> r; r.swap(a);", None, res="r")
    # in place, then moved out by swap: the other array holds the first one's shape
    # --- time slices: the last dimension is time
    for nd in (2, 3, 4):
        Dn = [f"n{j}" for j in range(nd)]
        sgn = ", ".join(f"size_t {v}" for v in Dn)

        def chk(x, Dn=Dn):
            r = x.ret.v
            if not (isinstance(r, Ptr) and r.obj):
                x.obl.append(("result storage", False, str(r)))
                return
            x.D.ints = lambda v: v in Dn or (isinstance(v, str) and v[0] == "K" and v[1:].isdigit())
            m = S(x.D, Rat(prod(Dn[:-1])))
            flat(x, r.obj, m, lambda k, l: ldv(x, "pa", x.var("i") * m + k))
            shape_is(x, Dn[:-1])
        add(f"slice_time{nd}", f'extern "C" double *w_slice_time{nd}(double *pa, {sgn}, size_t i, size_t *o) {{ {mk("a", Dn, "pa")} ndarray<double> r = a.slice_time(i); {DUMP.format(a="r")} double *q = ((double**)&r.p)[0]; {unmk("a", "r")} return q; }}',
            ["pa"] + ["=" + v for v in Dn] + ["=i", "o"], chk, facts=Facts([f"n{j}-1" for j in range(nd)], Dn))
    # --- transposes reverse the order of the dimensions
    for nd in (1, 2, 3, 4):
        Dn = [f"n{j}" for j in range(nd)]
        sgn = ", ".join(f"size_t {v}" for v in Dn)
        R = Dn[::-1]
        for how, ex in (("get", "ndarray<double> r = a.get_transpose();"), ("in", "ndarray<double> r; r.swap(a); r.transpose();")):
            def chk(x, Dn=Dn, R=R):
                if len(Dn) > 1:
                    field(1, R, [0] * len(R), [0] * len(R), lambda x, c, idx: ldv(x, "pa", lin(idx[::-1], Dn, x, 1, 0)))(x)
                shape_is(x, R)
            add(f"transpose_{how}{nd}", f'extern "C" double *w_transpose_{how}{nd}(double *pa, {sgn}, size_t *o) {{ {mk("a", Dn, "pa")} {ex} {DUMP.format(a="r")} double *q = ((double**)&r.p)[0]; {unmk("a", "r")} return q; }}',
                ["pa"] + ["=" + v for v in Dn] + ["o"], chk)
    # --- several arrays as channels (first dimension) or as time steps (last dimension)
    for how in ("concat", "stack"):
        for m in (1, 2, 3):
            names = "abc"[:m]
            Dn = ["n0", "n1"]

            def chk(x, how=how, m=m, names=names, Dn=Dn):
                r = x.ret.v
                if not (isinstance(r, Ptr) and r.obj):
                    x.obl.append(("result storage", False, str(r)))
                    return
                N = S(x.D, Rat(prod(Dn)))
                x.D.ints = lambda v: v in Dn or (isinstance(v, str) and v[0] == "K" and v[1:].isdigit())
                seen = {}
                for l in x.E.loops:
                    k = x.var(f"K{l.n}")
                    for o, off, sz, v in l.writes:
                        if o != r.obj:
                            if not o.startswith(("stack", "heap")):
                                x.obl.append(("side effect", False, f"a loop writes {o}"))
                            continue
                        e = S(x.D, off) * Fraction(1, 8)
                        for j in range(m):
                            want = k * m + j if how == "concat" else k + N * j
                            if isinstance(e.v, Rat) and req(e.v, want.v):
                                seen[j] = seen.get(j, 0) + 1
                                x.eq(f"array {j}: iterations", S(x.D, l.exec), (k < N), (k >= 0) & (k <= N))
                                x.eq(f"array {j}: element", S(x.D, v), ldv(x, "p" + names[j], k), (k >= 0) & (k < N))
                                break
                        else:
                            x.obl.append(("index", False, f"an iteration writes element {str(e.v)[:200]}, which is no array's place"))
                for j in range(m):
                    x.obl.append((f"array {j} copied once", seen.get(j, 0) == 1, f"the elements of array {j} are copied by {seen.get(j, 0)} loop bodies, expected one"))
                shape_is(x, [pconst(m)] + Dn if how == "concat" else Dn + [pconst(m)])
            add(f"{how}{m}", f'extern "C" double *w_{how}{m}({", ".join("double *p" + v for v in names)}, size_t n0, size_t n1, size_t *o) {{ std::vector<ndarray<double>> v({m}); '
                + "".join(f'{{ {mk("q", Dn, "p" + c)} v[{j}].dims = q.dims; v[{j}].s = q.s; std::swap(((double**)&v[{j}].p)[0], ((double**)&q.p)[0]); ((double**)&v[{j}].p)[1] = ((double**)&q.p)[1]; ((double**)&q.p)[1] = 0; }} ' for j, c in enumerate(names))
                + f'ndarray<double> r = ndarray<double>::{how}(v); {DUMP.format(a="r")} double *z = ((double**)&r.p)[0]; {unmk("r", *[f"v[{j}]" for j in range(m)])} return z; }}',
                ["p" + v for v in names] + ["=n0", "=n1", "o"], chk, facts=Facts(["n0-1", "n1-1"], Dn))
    # --- sub-boxes: element K is the array's element at the box's K-th index
    for nd in (2, 3):
        Dn = [f"n{j}" for j in range(nd)]

        def chk(x, nd=nd, Dn=Dn):
            r = x.ret.v
            if not (isinstance(r, Ptr) and r.obj):
                x.obl.append(("result storage", False, str(r)))
                return
            x.D.ints = lambda v: isinstance(v, str) and (v[0] in "nm" or v[0] == "K" and v[1:].isdigit())
            M = [f"m{j}" for j in range(nd)]

            def want(k, l):
                e = x.c(0)
                for j in range(nd):
                    e = e + S(x.D, Rat(pvar(UF("digit", (canon(rc(j)), canon(k.v)))))) * S(x.D, Rat(prod(Dn[:j])))
                return ldv(x, "pa", e)
            flat(x, r.obj, S(x.D, Rat(prod(M))), want)
            shape_is(x, M)
            for j in range(nd):
                for q in x.E.digit_lattices:
                    x.eq(f"start of the box, dimension {j}", S(x.D, q[0][j]), x.var(f"b{j}"))
                    x.eq(f"size of the box, dimension {j}", S(x.D, q[1][j]), x.var(f"m{j}"))
        sgn = ", ".join(f"size_t {v}" for v in Dn + [f"b{j}" for j in range(nd)] + [f"m{j}" for j in range(nd)])
        st, sz = ",".join(f"b{j}" for j in range(nd)), ",".join(f"m{j}" for j in range(nd))
        for how, ex in (("lat", f"lattice l(st, sz); ndarray<double> r = a.slice(l);"), ("vec", "ndarray<double> r = a.slice(st, sz);")):
            add(f"slice_{how}{nd}", f'extern "C" double *w_slice_{how}{nd}(double *pa, {sgn}, size_t *o) {{ {mk("a", Dn, "pa")} std::vector<size_t> st{{{st}}}, sz{{{sz}}}; {ex} {DUMP.format(a="r")} double *q = ((double**)&r.p)[0]; {unmk("a", "r")} return q; }}',
                ["pa"] + ["=" + v for v in Dn] + [f"=b{j}" for j in range(nd)] + [f"=m{j}" for j in range(nd)] + ["o"], chk)
    # --- reductions
    DBL = Fraction((2 ** 53 - 1) * 2 ** 971)

    def red(name, code, outs):
        """outs: [(init predicate, step(x, acc, k))] per result"""
        def chk(x):
            x.D.ints = lambda v: isinstance(v, str) and (v in D or v[0] == "K" and v[1:].isdigit())
            L1 = [l for l in x.E.loops if l.carried]
            x.obl.append(("one pass", len(L1) == 1, f"the reduction runs {len(L1)} accumulating loops, expected one"))
            if len(L1) != 1:
                return
            l = L1[0]
            k = x.var(f"K{l.n}")
            x.eq("elements visited", S(x.D, l.exec), (k < n(x)), (k >= 0) & (k <= n(x)))
            for j, (ini, step) in enumerate(outs):
                o = pk(x, 8 * j)
                c = [q for q in l.carried if isinstance(o, Rat) and isinstance(q[0], Rat) and req(o, q[0])]
                x.obl.append((f"result {j}", len(c) == 1, f"result {j} is {str(o)[:300]}, not the value accumulated over all elements"))
                if len(c) != 1:
                    continue
                s, i0, nx = c[0]
                ok = isinstance(i0, Rat) and i0.is_const and ini(i0.const)
                x.obl.append((f"result {j}: initial value", ok, f"result {j} starts from {str(i0)[:80] if not (isinstance(i0, Rat) and i0.is_const) else float(i0.const)}, which is not neutral for the reduction"))
                either(x, [lambda i=i: x.eq(f"result {j}: step", S(x.D, nx), step(x, S(x.D, s), ldv(x, "pa", i)), (k >= 0) & (k < n(x))) for i in (k, n(x) - 1 - k)])
            nowrap(x)
        add(name, f'extern "C" void w_{name}(double *pa, {sg}, double *o) {{ {mk("a", D, "pa")} {code} {unmk("a")} }}', ["pa"] + na + ["o"], chk, facts=F())
    mn = lambda x, a, v: (v < a).ite(v, a)
    mx = lambda x, a, v: (a < v).ite(v, a)
    red("min_max", "auto t = a.min_max(); o[0] = std::get<0>(t); o[1] = std::get<1>(t);", [(lambda c: c >= DBL, mn), (lambda c: c <= -DBL, mx)])
    red("maxabs", "o[0] = a.maxabs();", [(lambda c: c == 0, lambda x, a, v: mx(x, a, v.abs()))])
    red("resolution", "o[0] = a.resolution();", [(lambda c: c >= DBL, lambda x, a, v: v.iszero().ite(a, mn(x, a, v.abs())))])
    # --- vectors in and out
    def vec(name, code, chk, two=False, extra=""):
        add(name, f'extern "C" double *w_{name}(double *pa, double *pb, {sg}, size_t m, size_t *o) {{ {mk("a", D, "pa", 1, 1)} std::vector<double> v; ((double**)&v)[0] = pb; ((double**)&v)[1] = pb + m; {code} }}', ["pa", "pb"] + na + ["=m", "o"], chk, facts=Facts([f"n{j}-1" for j in range(3)] + ["m-1"], D + ["m"]))

    def ch_from(x):
        x.D.ints = lambda v: isinstance(v, str) and (v in D + ["m"] or v[0] == "K" and v[1:].isdigit())
        ls = [l for l in x.E.loops for w in l.writes if w[0] == "pa"]
        x.obl.append(("one loop", len(ls) == 1, f"{len(ls)} loops write the array"))
        for l in ls:
            k = x.var(f"K{l.n}")
            for o, off, sz, v in l.writes:
                if o != "pa":
                    continue
                x.eq("index", S(x.D, off) * Fraction(1, 8), k)
                m, N = x.var("m"), n(x)
                x.eq("iterations", S(x.D, l.exec), (k < N) & (k < m), (k >= 0) & (k <= N) & (k <= m))
                x.eq("element", S(x.D, v), ldv(x, "pb", k), (k >= 0) & (k < N) & (k < m))
    vec("from_vector", "a.from_vector(v); ((double**)&v)[0] = 0; ((double**)&a.p)[0] = 0; return 0;", ch_from)

    def ch_copy(x):
        r = x.ret.v
        ok = isinstance(r, Ptr) and r.obj == "pb" and req(r.off, rc(0))
        x.obl.append(("elements", ok, "" if ok else f"the elements are those at {str(r)[:200]}, expected the vector's"))
    own = "double *q = ((double**)&a.p)[0]; ((double**)&v)[0] = 0; ((double**)&a.p)[0] = 0; return q;"
    vec("fill_vec", "a.fill(v); o[0] = ((double**)&a.p)[1] - ((double**)&a.p)[0]; " + own, lambda x: (ch_copy(x), peq(x, "count", pk(x, 0), pvar("m"))))
    vec("copy_vec", f"a.copy_vector(v); {DUMP.format(a='a')} " + own, lambda x: (ch_copy(x), shape_is(x, ["m"])))
    vec("to_vector", "std::vector<double> w; a.to_vector(w); double *q = ((double**)&w)[0]; o[0] = ((double**)&w)[1] - q; ((double**)&w)[0] = 0; ((double**)&v)[0] = 0; ((double**)&a.p)[0] = 0; return q;",
        lambda x: (x.obl.append(("elements", isinstance(x.ret.v, Ptr) and x.ret.v.obj == "pa", f"to_vector returns the elements at {str(x.ret.v)[:200]}")), peq(x, "count", pk(x, 0), N)))
    # --- shape bookkeeping
    def misc(name, code, chk):
        add(name, f'extern "C" void w_{name}(double *pa, {sg}, size_t c, size_t *o) {{ {mk("a", D, "pa", 1, 0)} {code} {unmk("a")} }}', ["pa"] + na + ["=c", "o"], chk, facts=F())
    misc("make_mc", f"a.ncd = 0; a.make_multicomponents(); {DUMP.format(a='a')}", lambda x: shape_is(x, [1] + D, 1, 0))
    misc("reset", f"a.reset(); o[0] = a.dims.size(); o[1] = a.s.size(); o[2] = ((double**)&a.p)[1] - ((double**)&a.p)[0]; o[3] = a.ncd * 2 + a.tv; ", lambda x: [peq(x, f"field {j} after reset", pk(x, 8 * j), pconst(0)) for j in range(4)])
    misc("queries", "o[0] = a.ncomponents(); o[1] = a.multicomponents(); o[2] = a.has_time(); a.set_multicomponents(2); o[3] = a.ncomponents(); a.set_has_time(true); o[4] = a.has_time(); o[5] = a.nd(); "
         "o[6] = a.dim(1); o[7] = a.shape(2); o[8] = a.shape()[0]; o[9] = a.size(); a.set_multicomponents(0); o[10] = a.ncomponents(); o[11] = a.elem_size(); o[12] = a.get_lattice().size(1); o[13] = a.get_lattice().start(2);",
         lambda x: [peq(x, lb, pk(x, 8 * j), w) for j, (lb, w) in enumerate((("ncomponents (1)", pvar("n0")), ("multicomponents", pconst(1)), ("has_time", pconst(0)), ("ncomponents (2)", prod(["n0", "n1"])), ("has_time", pconst(1)), ("nd", pconst(3)),
                                                                            ("dim(1)", pvar("n1")), ("shape(2)", pvar("n2")), ("shape()[0]", pvar("n0")), ("size", N), ("ncomponents (0)", pconst(1)), ("elem_size", pconst(8)), ("lattice size 1", pvar("n1")), ("lattice start 2", pconst(0))))])

    # --- multilinear interpolation
    for nd in (1, 2, 3, 4):
        for nc in (0, 1):
            Dn = [f"n{j}" for j in range(nd)]
            DD = (["2"] if nc else []) + Dn

            def chk(x, nd=nd, nc=nc, Dn=Dn):
                dims = ([x.c(2)] if nc else []) + [x.var(d) for d in Dn]
                X = [x.var(f"x[{j}]") for j in range(nd)]
                inside = S(x.D, True)
                for j in range(nd):
                    inside = inside & (X[j] >= 0) & (X[j] < x.var(Dn[j]) - 1)
                x.eq("inside", x.ret, inside)
                f = [X[j].fn("floor").fn("int") for j in range(nd)]
                for c in range(2 if nc else 1):
                    r = x.c(0)
                    for m in range(1 << nd):
                        w, e, st = x.c(1), x.c(c), x.c(2 if nc else 1)
                        for j in range(nd):
                            b = (m >> j) & 1
                            mu = X[j] - f[j]
                            w = w * (mu if b else 1 - mu)
                            e = e + (f[j] + b) * st
                            st = st * x.var(Dn[j])
                        r = r + w * ldv(x, "pa", e)
                    x.eq(f"component {c}", x.out("v", 2)[c], r, inside)
            sgn = ", ".join(f"size_t {v}" for v in Dn)
            add(f"mlerp{nd}{'c' if nc else ''}", f'extern "C" bool w_mlerp{nd}{"c" if nc else ""}(double *pa, {sgn}, const double *x, double *v) {{ {mk("a", DD, "pa", nc)} bool r = a.mlerp<double>(x, v); {unmk("a")} return r; }}',
                ["pa"] + ["=" + v for v in Dn] + ["x", "v"], chk)
