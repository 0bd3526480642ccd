"""Extruded unstructured meshes (engine 1): element numbering, vertices, faces and cofaces against the combinatorial definition of the prism subdivision.

The base mesh is replaced by declarations (no body): its answers are symbols of the entry - a base cell with ordered vertices T0 < T1 < ..., ids of its faces.
std::set is replaced by a plain list so that the inserted ids can be read back; everything else is the code of /repo."""
from itertools import combinations
from spec import *
from facts import Facts, poly

M2 = "include/ftk/mesh/simplicial_unstructured_extruded_2d_mesh_implicit.hh"
M2B = "include/ftk/mesh/simplicial_unstructured_extruded_2d_mesh.hh"
M3 = "include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh"
OPTS = dict(full=True)

PRE = r'''
#define _FTK_UNSTRUCTURED_MESH_2D_HH
#define _FTK_MESH_UNSTRUCTURED_3D_HH
#include <set>
#include <map>
#include <vector>
#include <array>
#include <string>
#include <memory>
#include <tuple>
#include <cmath>
#include <cassert>
#include <cstdio>
#include <limits>
#include <algorithm>
#include <functional>
#include <numeric>
#include <thread>
#include <iostream>
enum { FTK_XL_NONE = 0 };
extern "C" {
  long m_n(int d, bool part); int m_get(int d, int i, int *v, bool part); bool m_find(int d, const int *v, int *id);
  int m_side(int d, int i); int m_l2g(int d, int i); int m_g2l(int d, int i); int m_chi(int i); int m_vv(int i); void m_coords(int i, double *c);
  bool m_sorted(); void m_pf(unsigned long n); int m_task(); void m_sink(long id);
}
namespace std {
  template <typename T> struct mset {
    typedef T value_type; typedef const T* iterator; typedef const T* const_iterator;
    T a[16]; int c = 0;
    mset() {}
    mset(std::initializer_list<T> l) { for (auto x : l) insert(x); }
    void insert(T x) {
      if (m_sorted()) {
        int p = c;
        for (int j = 0; j < c; j ++) { if (a[j] == x) return; if (x < a[j]) { p = j; break; } }
        for (int j = c; j > p; j --) a[j] = a[j-1];
        a[p] = x; c ++;
      } else a[c ++] = x;
    }
    void emplace(T x) { insert(x); }
    template <typename It> void insert(It b, It e) { for (; b != e; ++b) insert(T(*b)); }
    const T* begin() const { return a; }
    const T* end() const { return a + c; }
    const T* cbegin() const { return a; }
    const T* cend() const { return a + c; }
    size_t size() const { return c; }
    bool empty() const { return c == 0; }
    size_t count(T x) const { return find(x) != end(); }
    const T* find(T x) const { for (int j = 0; j < c; j ++) if (a[j] == x) return a + j; return end(); }
    bool operator==(const mset& o) const { if (c != o.c) return false; for (int j = 0; j < c; j ++) if (!o.count(a[j])) return false; return true; }
    bool operator!=(const mset& o) const { return !(*this == o); }
  };
}
#define set mset
namespace ftk {
struct object {
  template <typename F> static void parallel_for(size_t n, F f, int xl = 0, int nthreads = 1, bool affinity = false) { m_pf(n); f(m_task()); }
};
template <typename I=int, typename F=double> struct base_mesh : public object {
  size_t n(int d, bool part=false) const { return m_n(d, part); }
  int nd() const { return 0; }
  size_t ncoords() const { return 3; }
  I get_simplex(int d, I i, I v[], bool part=false) const { return m_get(d, i, v, part); }
  void get_triangle(I i, I v[], bool part=false) const { m_get(2, i, v, part); }
  void get_edge(I i, I v[], bool part=false) const { m_get(1, i, v, part); }
  bool find_simplex(int d, const I v[], I& i) const { return m_find(d, v, &i); }
  bool find_tetrahedron(const I v[], I& i) const { return m_find(3, v, &i); }
  bool find_triangle(const I v[], I& i) const { return m_find(2, v, &i); }
  bool find_edge(const I v[], I& i) const { return m_find(1, v, &i); }
  std::set<I> side_of(int d, I i) const { std::set<I> r; r.a[0] = m_side(d, i); r.c = 1; return r; }
  std::set<I> get_vertex_edge_vertex(I i) const { std::set<I> r; r.a[0] = m_vv(i); r.c = 1; return r; }
  I lid2gid(int d, I i) const { return m_l2g(d, i); }
  I gid2lid(int d, I i) const { return m_g2l(d, i); }
  int get_triangle_chi(I i) const { return m_chi(i); }
  void get_coords(I i, F c[]) const { m_coords(i, c); }
  bool is_partial() const { return false; }
};
template <typename I=int, typename F=double> struct simplicial_unstructured_2d_mesh : public base_mesh<I, F> {};
template <typename I=int, typename F=double> struct simplicial_unstructured_3d_mesh : public base_mesh<I, F> {};
}
#include <ftk/mesh/simplicial_unstructured_extruded_2d_mesh.hh>
#include <ftk/mesh/simplicial_unstructured_extruded_2d_mesh_implicit.hh>
#include <ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh>
using namespace ftk;
typedef simplicial_unstructured_2d_mesh<int, double> B2;
typedef simplicial_unstructured_3d_mesh<int, double> B3;
typedef simplicial_unstructured_extruded_2d_mesh_implicit<int, double> X2;
typedef simplicial_unstructured_extruded_3d_mesh<int, double> X3;
'''


# ------------------------------------------------------------ definition of the prism subdivision over a base mesh of dimension nb
def types(nb, d):
    """[(base dimension, [(base vertex position, level)])] of the d-simplices that start at one time step, in the order of their numbering"""
    T = []
    if d <= nb:
        for j in range(d, -1, -1):
            T.append((d, [(v, 0 if v <= j else 1) for v in range(d + 1)]))
    if d >= 1:
        for j in range(d - 1, -1, -1):
            T.append((d - 1, [(v, 0) for v in range(j + 1)] + [(v, 1) for v in range(j, d)]))
    return T


def count(nb, d, n="n"):
    r = P0
    for b, _ in types(nb, d):
        r = padd(r, pvar(f"{n}{b}"))
    return r


def offset(nb, d, ty, n="n"):
    r = P0
    for b, _ in types(nb, d)[:ty]:
        r = padd(r, pvar(f"{n}{b}"))
    return r


def ident(c, nm="i"):
    return pvar(nm + "".join(str(v) for v in c)) if len(c) > 1 else pvar(f"T{c[0]}" if nm == "i" else f"{nm}{c[0]}")


def number(nb, s, t):
    """global number of the simplex with vertices s = [(base vertex, level)] at time step t (polynomial)"""
    s = sorted(s, key=lambda x: (x[1], x[0]))
    if all(l == 1 for _, l in s):
        t, s = padd(t, pconst(1)), [(v, 0) for v, _ in s]
    d = len(s) - 1
    base = sorted({v for v, _ in s})
    pos = [(base.index(v), l) for v, l in s]
    for ty, (b, pat) in enumerate(types(nb, d)):
        if b == len(base) - 1 and sorted(pat) == sorted(pos):
            return padd(padd(ident(base), offset(nb, d, ty)), pmul(t, count(nb, d)))
    raise AssertionError((s, nb))


def simplex(nb, d, ty, base):
    """vertices [(base vertex, level)] of type ty over the base simplex"""
    return [(base[p], l) for p, l in types(nb, d)[ty][1]]


def faces(s):
    return [s[:j] + s[j + 1:] for j in range(len(s))]


def cofaces(nb, s, base):
    """(d+1)-simplices of the prism over the base cell that have s as a face: [(simplex, dt)]"""
    d = len(s)
    out = []
    for dt in (0, -1):
        for ty, (b, _) in enumerate(types(nb, d)):
            for c in combinations(base, b + 1):
                q = simplex(nb, d, ty, c)
                q = [(v, l + dt) for v, l in q]
                if set(s) <= set(q):
                    out.append(([(v, l - dt) for v, l in q], dt))
    return out


# ------------------------------------------------------------ facts and the base mesh's answers
def facts(nv, tmin=0, extra=()):
    ge = ["n0-1", "n1-1", "n2-1", "n3-1", "p0-1", "p1-1", "p2-1", "n0-p0", "n1-p1", "n2-p2", "T0", f"n0-T{nv-1}-1", "pf", "2147483640-t"]
    ge += [f"T{j+1}-T{j}-1" for j in range(nv - 1)]
    ids = []
    for k in range(2, nv + 1):
        for c in combinations(range(nv), k):
            s = "".join(map(str, c))
            ge += [f"n{k-1}-i{s}-1", f"p{k-1}-l{s}-1" if k < 4 else f"n{k-1}-l{s}-1"]
            ids += [f"i{s}", f"l{s}"]
    ge += [f"p0-l{j}-1" for j in range(nv)]
    ids += [f"l{j}" for j in range(nv)]
    if tmin >= 0:
        return Facts(ge + list(extra), ["t", "n0", "n1", "n2", "n3", "p0", "p1", "p2"] + [f"T{j}" for j in range(nv)] + ids)
    return Facts(ge + list(extra), ["n0", "n1", "n2", "n3", "p0", "p1", "p2"] + [f"T{j}" for j in range(nv)] + ids, ["t+1"])


def hook(nv, sorted_=False, cell=None):
    """the base mesh: ids of the faces of one cell T0..T(nv-1); cell: the base cell returned by side_of"""
    F = {}

    def sym(x):
        x = x if isinstance(x, Rat) else None
        if x is None or x.d != P1:
            return None
        p = F["red"](x.n)
        if len(p.t) != 1:
            return None
        (m, c), = p.t.items()
        return m[0][0] if c == 1 and len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], str) else None

    def h(E, name, args, env, mem, owned, cond, I):
        V = lambda j: E.val(env, args[j])
        F["red"] = E.facts.red
        if name == "m_n":
            d, p = V(0), V(1)
            if not (isinstance(d, Rat) and d.is_const):
                raise Unsupported("size of a symbolic dimension")
            d = int(d.const)
            p = p if isinstance(p, bool) else bool(p.const)
            if d > nv - 1 or d < 0:
                return rc(0)
            return Rat(pvar(("p" if p else "n") + str(d)))
        if name == "m_get":
            d, i, p, part = int(V(0).const), V(1), V(2), V(3)
            part = part if isinstance(part, bool) else bool(part.const)
            s = sym(i)
            pre = "l" if part else "i"
            if s and s.startswith(pre) and len(s) == d + 2:
                c = [int(x) for x in s[1:]]
            elif s and d == 0 and (s[0] == "l" if part else s[0] == "T") and len(s) == 2:
                c = [int(s[1])]
            else:
                for j in range(d + 1):
                    E.poke(mem, owned, Ptr(p.obj, radd(p.off, rc(4 * j))), 4, Rat(pvar(UF("get", (rc(d), rc(j), canon(i))))))
                return Rat(pvar(UF("getid", (rc(d), canon(i)))))
            for j, v in enumerate(c):
                E.poke(mem, owned, Ptr(p.obj, radd(p.off, rc(4 * j))), 4, Rat(pvar(f"T{v}")))
            return Rat(ident(c))
        if name == "m_find":
            d, p, o = int(V(0).const), V(1), V(2)
            vs = [E.peek(mem, Ptr(p.obj, radd(p.off, rc(4 * j))), 4) for j in range(d + 1)]
            ss = [sym(v) for v in vs]
            if all(s and s[0] == "T" for s in ss) and len(set(ss)) == d + 1:
                if d == 0:
                    r = pvar(ss[0])
                else:
                    r = ident(sorted(int(s[1:]) for s in ss))
            else:
                r = pvar(UF("find", tuple(canon(v) if isinstance(v, Rat) else rc(-1) for v in vs)))
            E.poke(mem, owned, o, 4, Rat(r))
            return True
        if name == "m_side":
            d, i = int(V(0).const), V(1)
            s = sym(i)
            ok = s and cell and len(s) == d + 2 and set(s[1:]) <= set(map(str, cell)) and len(cell) == d + 2
            return Rat(ident(cell)) if ok else Rat(pvar(UF("side", (rc(d), canon(i)))))
        if name == "m_l2g":
            d, i = int(V(0).const), V(1)
            s = sym(i)
            if s and s[0] == "l" and len(s) == d + 2:
                return Rat(ident([int(x) for x in s[1:]]))
            return Rat(pvar(UF("l2g", (rc(d), canon(i)))))
        if name == "m_sorted":
            return bool(sorted_)
        if name == "m_task":
            return Rat(pvar("pf"))
        if name in ("m_chi", "m_vv", "m_g2l"):
            return Rat(pvar(UF(name, tuple(canon(V(j)) for j in range(len(args))))))
        if name in ("m_pf", "m_sink"):
            E.ev = getattr(E, "ev", []) + [(name, V(0), cond)]
            return None
        if name == "m_coords":
            E.ev = getattr(E, "ev", []) + [(name, V(0), cond)]
            p = V(1)
            for j in range(3):
                E.poke(mem, owned, Ptr(p.obj, radd(p.off, rc(8 * j))), 8, Rat(pvar(f"X{j}")))
            return None
        if name == "_ZNSt6thread20hardware_concurrencyEv":
            return Rat(pvar("ncores"))
        if name in ("fprintf", "printf", "puts", "fputs", "fwrite", "fputc", "putchar"):
            return rc(0)
        return NotImplemented
    return h


def mesh(nb):
    return "B2 base; std::shared_ptr<B2> bp(std::shared_ptr<B2>(), &base); X2 M(bp); " if nb == 2 else "B3 base; std::shared_ptr<B3> bp(std::shared_ptr<B3>(), &base); X3 M(bp); "


def cell(x, off, size=4, obj="o"):
    v = x.E.peek(x.mem, Ptr(obj, rc(off)), size)
    return v


def same(x, label, got, want):
    """equality of two polynomials modulo the facts"""
    ok = isinstance(got, Rat) and got.d == P1 and not x.E.facts.red(padd(got.n, want, -1)).t
    x.obl.append((label, ok, "" if ok else f"{label}: code computes {str(got)[:300]} but the definition gives {str(Rat(want))[:300]}"))


def asset(x, label, n, got, want, names):
    """the ids written are exactly the wanted ones"""
    if not (isinstance(n, Rat) and n.is_const):
        x.obl.append((label, False, f"{label}: the number of results is not determined: {str(n)[:200]}"))
        return
    red = x.E.facts.red
    G = []
    for j in range(int(n.const)):
        g = got(j)
        if not (isinstance(g, Rat) and g.d == P1):
            x.obl.append((label, False, f"{label}: result {j} is not determined: {str(g)[:200]}"))
            return
        G.append(red(g.n))
    W = {red(w): nm for w, nm in zip(want, names)}
    for w, nm in W.items():
        ok = w in G
        x.obl.append((f"{label} contains {nm}", ok, "" if ok else f"{label}: the id of {nm} ({Rat(w)}) is missing"))
    for g in G:
        ok = g in W
        x.obl.append((f"{label} contains nothing else", ok, "" if ok else f"{label}: {Rat(g)} does not belong to it"))


def show(s, dt=0):
    return "-".join(f"{v}" + ("'" if l else "") for v, l in s) + (f" (t{dt:+d})" if dt else "")


def group(nb):
    MH = M2 if nb == 2 else M3
    L = []
    top = nb + 1
    parts = (0, 1) if nb == 2 else (0,)
    AR = ["=k", "o"]

    def add(name, body, check, where, fc, hk, sig="int k, int *o", args=None):
        f = "w_" + name
        L.append(Entry(f, f'extern "C" void {f}({sig}) {{ {mesh(nb)}{body} }}', args or AR, check, where, hook=hk, facts=fc))

    # k is given as a polynomial: the argument is replaced through an equality fact k = ...
    def kfacts(nv, p, tmin=0, extra=()):
        F = facts(nv, tmin, extra)
        p = F.red(p)
        F.red.sub.append(("k", p))
        F.red.sub = [(u, F.red.apply(q, "k", p)) for u, q in F.red.sub]
        return F
    tv = pvar("t")
    # --- counts
    for part in parts:
        for d in range(top + 1):
            if d == top and nb == 3:
                kinds = ("n",)
            else:
                kinds = ("n", "n_ordinal", "n_interval") if d else ("n", "n_ordinal")
            N = "p" if part else "n"

            def chk(x, d=d, N=N, kinds=kinds):
                tot = count(nb, d, N)
                o = pvar(f"{N}{d}") if d <= nb else P0
                for j, (kd, w) in enumerate(zip(kinds, (tot, o, padd(tot, o, -1)))):
                    same(x, f"{kd}({d})", cell(x, 8 * j, 8), w)
            pa = ", true" if part else ""
            add(f"n{nb}_{d}_{part}", "".join(f"((size_t*)o)[{j}] = M.{kd}({d}{pa}); " for j, kd in enumerate(kinds)), chk, MH, facts(nb + 1), hook(nb + 1))
    # --- vertices and type of every element
    for part in parts:
        for d in range(top + 1):
            for ty, (b, pat) in enumerate(types(nb, d)):
                N = "p" if part else "n"
                base = list(range(b + 1))
                bid = ident(base, "l" if part else "i")
                k = padd(padd(bid, offset(nb, d, ty, N)), pmul(tv, count(nb, d, N)))

                def chk(x, d=d, ty=ty, b=b, part=part):
                    s = simplex(nb, d, ty, list(range(b + 1)))
                    for j, (v, l) in enumerate(s):
                        w = padd(pvar(f"T{v}"), pmul(padd(tv, pconst(l)), pvar("n0")))
                        same(x, f"vertex {j}", cell(x, 4 * j), w)
                    if nb == 2:
                        same(x, "global id", cell(x, 4 * 5), number(nb, s, tv))
                    same(x, "type", cell(x, 4 * 6), pconst(ty))
                    if not part and d <= nb:
                        g = cell(x, 4 * 7)
                        g = g if isinstance(g, Rat) else None
                        same(x, "is_ordinal", g, pconst(1 if d == 0 or (ty == 0) else 0))
                pa = ", true" if part else ""
                call = f"M.get_simplex({d}, k, v{pa})"
                add(f"simplex{nb}_{d}_{ty}_{part}", f"int v[5]; {'o[5] = ' if nb == 2 else ''}{call}; for (int j = 0; j < {d+1}; j ++) o[j] = v[j]; o[6] = M.simplex_type({d}, k{pa}); o[7] = M.is_ordinal({d}, k);",
                    chk, MH, kfacts(nb + 1, k), hook(nb + 1))
    # --- sides
    for d in ((3,) if nb == 2 else (4, 3)):
        for tmin in (0, -1):
            for ty, (b, pat) in enumerate(types(nb, d)):
                if tmin < 0 and ty == 0:
                    continue
                base = list(range(b + 1))
                s = simplex(nb, d, ty, base)
                k = number(nb, s, tv)

                def chk(x, s=s, d=d):
                    W = faces(s)
                    asset(x, f"sides of {show(s)}", cell(x, 0), lambda j: cell(x, 4 + 4 * j), [number(nb, f, tv) for f in W], [show(f) for f in W])
                add(f"sides{nb}_{d}_{ty}{'m' if tmin else ''}", f"auto s = M.sides({d}, k); o[0] = s.c; for (int j = 0; j < s.c; j ++) o[1+j] = s.a[j];", chk, MH, kfacts(nb + 1, k, tmin), hook(nb + 1))
    # --- side_of: one arbitrary base cell around the element's base simplex
    for d in ((2,) if nb == 2 else (3, 2)):
        for ty, (b, pat) in enumerate(types(nb, d)):
            bases = [(list(range(b + 1)), None)] if b == nb else [(list(c), list(range(b + 2))) for c in combinations(range(b + 2), b + 1)]
            for base, cl in bases:
                s = simplex(nb, d, ty, base)
                k = number(nb, s, tv)

                def chk(x, s=s, cl=cl, base=base):
                    C = cofaces(nb, s, cl or base)
                    asset(x, f"side_of {show(s)}", cell(x, 0), lambda j: cell(x, 4 + 4 * j), [number(nb, q, padd(tv, pconst(dt))) for q, dt in C], [show(q, dt) for q, dt in C])
                nm = f"sideof{nb}_{d}_{ty}_" + "".join(map(str, base))
                add(nm, f"auto s = M.side_of({d}, k); o[0] = s.c; for (int j = 0; j < s.c; j ++) o[1+j] = s.a[j];", chk, MH, kfacts(nb + 1, k), hook(nb + 1, cell=cl))
    # --- element loops
    for part in parts:
        for d in range(top + (0 if nb == 3 else 1)):
            N = "p" if part else "n"
            for kd in ("ordinal", "interval", ""):
                if part and not kd or (kd == "interval" and d == 0) or (kd == "ordinal" and d > nb):
                    continue
                tot = count(nb, d, N)
                o = pvar(f"{N}{d}") if d <= nb else P0
                n, first = {"ordinal": (o, P0), "interval": (padd(tot, o, -1), o), "": (tot, P0)}[kd]

                def chk(x, n=n, first=first, tot=tot, kd=kd):
                    ev = getattr(x.E, "ev", [])
                    pf = [e for e in ev if e[0] == "m_pf"]
                    sk = [e for e in ev if e[0] == "m_sink"]
                    x.obl.append(("loop", len(pf) == 1 and len(sk) == 1, f"expected one parallel loop calling the function once per task, got {len(pf)} loops and {len(sk)} calls"))
                    if len(pf) == 1 and len(sk) == 1:
                        same(x, "number of tasks", pf[0][1], n)
                        same(x, "element of task i", sk[0][1], padd(padd(pvar("pf"), first), pmul(tv, tot) if kd else P0))
                fn = {"": f"M.element_for({d}, f)", "ordinal": f"M.element_for_ordinal({d}, t, f{', true' if part else ''})", "interval": f"M.element_for_interval({d}, t, f{', true' if part else ''})"}[kd]
                add(f"for{nb}_{d}_{kd or 'all'}_{part}", f"auto f = [&](int i) {{ m_sink(i); }}; {fn};", chk, M2B if nb == 2 else M3, facts(nb + 1), hook(nb + 1), sig="int t, int *o", args=["=t", "o"])
    # --- flat ids, coordinates
    kv = padd(pvar("T0"), pmul(tv, pvar("n0")))

    def chk(x):
        same(x, "flat_vertex_id", cell(x, 0), pvar("T0"))
        same(x, "flat_vertex_time", cell(x, 4), tv)
        same(x, "extruded_vertex_id(k, true)", cell(x, 8), padd(kv, pvar("n0")))
        same(x, "extruded_vertex_id(k, false)", cell(x, 12), kv)
        c = [e for e in getattr(x.E, "ev", []) if e[0] == "m_coords"]
        x.obl.append(("get_coords", len(c) == 1, "get_coords does not ask the base mesh once"))
        if len(c) == 1:
            same(x, "vertex of get_coords", c[0][1], pvar("T0"))
        for j in range(3):
            same(x, f"coordinate {j}", cell(x, 16 + 8 * j, 8), pvar(f"X{j}"))
        same(x, "coordinate 3 (time)", cell(x, 40, 8), tv)
    add(f"vertex{nb}", "o[0] = M.flat_vertex_id(k); o[1] = M.flat_vertex_time(k); o[2] = M.extruded_vertex_id(k, true); o[3] = M.extruded_vertex_id(k, false); M.get_coords(k, (double*)(o+4));", chk, M2B if nb == 2 else M3,
        kfacts(nb + 1, kv), hook(nb + 1))
    if nb == 2:
        # --- find_simplex, inverse of get_simplex
        for d in (1, 2, 3):
            for ty, (b, pat) in enumerate(types(nb, d)):
                s = simplex(nb, d, ty, list(range(b + 1)))

                def chk(x, s=s):
                    same(x, "found", cell(x, 4), pconst(1))
                    same(x, f"id of {show(s)}", cell(x, 0), number(nb, s, tv))
                F = facts(nb + 1)
                vs = ", ".join(f"v{j}" for j in range(d + 1))
                for j, (v, l) in enumerate(s):
                    F.red.sub.append((f"v{j}", padd(pvar(f"T{v}"), pmul(padd(tv, pconst(l)), pvar("n0")))))
                add(f"find{nb}_{d}_{ty}", f"int v[{d+1}] = {{{vs}}}; int id = -7; o[1] = M.find_simplex({d}, v, id); o[0] = id;", chk, MH, F, hook(nb + 1, sorted_=True),
                    sig="".join(f"int v{j}, " for j in range(d + 1)) + "int *o", args=[f"=v{j}" for j in range(d + 1)] + ["o"])
        vv = pvar(UF("m_vv", (Rat(pvar("T0")),)))

        def chk(x):
            n = pvar("n0")
            base = lambda q: pmul(padd(tv, pconst(q)), n)
            asset(x, "get_vertex_edge_vertex", cell(x, 0), lambda j: cell(x, 4 + 4 * j), [padd(base(0), vv), padd(base(1), pvar("T0")), padd(base(-1), pvar("T0"))], ["a base neighbour", "the vertex one step later", "the vertex one step earlier"])
        add("vev2", "auto s = M.get_vertex_edge_vertex(k); o[0] = s.c; for (int j = 0; j < s.c; j ++) o[1+j] = s.a[j];", chk, M2, kfacts(3, kv), hook(3))
        for ty in range(len(types(2, 2))):
            b = types(2, 2)[ty][0]
            k = padd(padd(ident(list(range(b + 1))), offset(2, 2, ty)), pmul(tv, count(2, 2)))
            add(f"chi_{ty}", "o[0] = M.get_triangle_chi(k);", (lambda x, ty=ty: same(x, "chirality", cell(x, 0), pvar(UF("m_chi", (Rat(pvar("i012")),))) if ty == 0 else P0)), M2B, kfacts(3, k), hook(3))
    return PRE, L


def m05():
    """2D extruded mesh"""
    return group(2)


def m06():
    """3D extruded mesh"""
    return group(3)
