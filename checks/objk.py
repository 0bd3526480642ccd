"""The thread pool (engine 1, one symbolic iteration per loop): every task exactly once, every thread joined."""
import os
from spec import *
from facts import Facts, poly

OBJ = "include/ftk/object.hh"
STUB = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stub")
OPTS = dict(full=True, generic=True, feats=("FTK_HAVE_TBB", "FTK_HAVE_OPENMP"), flags=["-DDIY_NO_THREADS", "-isystem", STUB, "-I", STUB])

PRE = r'''
#include <iostream>
#include <string>
#include <thread>
#include <vector>
#include <set>
#include <map>
#include <functional>
#include <algorithm>
#include <numeric>
#include <iterator>
#include <ftk/config.hh>
#include <ftk/error.hh>
#include <ftk/external/diy/mpi.hpp>
#include <unistd.h>
#include <sched.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <tbb/tbb.h>
extern "C" void *m_alloc(size_t);
extern "C" size_t m_nworkers();
extern "C" void m_spawn(void *, size_t);
extern "C" void m_push();
extern "C" void m_join(size_t);
extern "C" void m_task(size_t);
extern "C" unsigned m_hw();
#include <tuple>
namespace std {
// a started thread: its closure is recorded (what it shares with the spawning loop), then run
struct mthread {
  size_t id = 0;
  mthread() {}
  template <typename F, typename = typename std::enable_if<!std::is_same<typename std::decay<F>::type, mthread>::value>::type> explicit mthread(F &&f) { typename std::decay<F>::type g(std::forward<F>(f)); m_spawn(&g, sizeof(g)); g(); }
  // a body with arguments: both are copied into the thread, like a closure that captures them by value
  template <typename F, typename A, typename... B> explicit mthread(F &&f, A &&a, B &&...b) : mthread([g = typename std::decay<F>::type(std::forward<F>(f)), t = std::make_tuple(typename std::decay<A>::type(a), typename std::decay<B>::type(b)...)]() mutable { std::apply(g, t); }) {}
  mthread(mthread &&o) : id(o.id) {}
  mthread &operator=(mthread &&o) { id = o.id; return *this; }
  mthread(const mthread &) = delete;
  bool joinable() const { return true; }
  void join() { m_join(id); }
  static unsigned hardware_concurrency() { return m_hw(); }
};
template <typename T> struct mvector {
  T *p; size_t n;
  typedef T value_type; typedef T *iterator; typedef const T *const_iterator;
  mvector() : p((T *)m_alloc(0)), n(0) {}
  explicit mvector(size_t n_) : p((T *)m_alloc(n_)), n(n_) {}
  template <typename It, typename = typename std::iterator_traits<It>::iterator_category> mvector(It a, It b) { const size_t m = std::distance(a, b); p = (T *)m_alloc(m); n = m; std::copy(a, b, p); }
  void reserve(size_t) {}
  void resize(size_t m) { n = m; }
  void push_back(const T &x) { p[n] = x; n ++; }
  template <typename... A> void emplace_back(A &&...a) { p[n] = T(std::forward<A>(a)...); n ++; }
  T &operator[](size_t i) { return p[i]; }
  const T &operator[](size_t i) const { return p[i]; }
  T &at(size_t i) { return p[i]; }
  size_t size() const { return n; }
  bool empty() const { return n == 0; }
  T *data() { return p; }
  T *begin() { return p; }
  T *end() { return p + n; }
  const T *begin() const { return p; }
  const T *end() const { return p + n; }
};
// the workers: only their number is kept (opaque, at least 0)
template <> struct mvector<mthread> {
  mthread cur;
  struct iterator {
    mvector *v; size_t i;
    typedef std::forward_iterator_tag iterator_category; typedef mthread value_type; typedef ptrdiff_t difference_type; typedef mthread *pointer; typedef mthread &reference;
    mthread &operator*() { v->cur.id = i; return v->cur; }
    mthread *operator->() { v->cur.id = i; return &v->cur; }
    iterator &operator++() { ++ i; return *this; }
    iterator operator++(int) { iterator t = *this; ++ i; return t; }
    bool operator!=(const iterator &o) const { return i != o.i; }
    bool operator==(const iterator &o) const { return i == o.i; }
  };
  typedef mthread value_type;
  mvector() {}
  void reserve(size_t) {}
  void push_back(mthread &&) { m_push(); }
  template <typename... A> void emplace_back(A &&...a) { mthread t(std::forward<A>(a)...); m_push(); }
  mthread &operator[](size_t i) { cur.id = i; return cur; }
  size_t size() const { return m_nworkers(); }
  bool empty() const { return m_nworkers() == 0; }
  iterator begin() { return iterator{this, 0}; }
  iterator end() { return iterator{this, m_nworkers()}; }
  void clear() {}
};
}
struct m_cont {
  const size_t *p; size_t n;
  typedef const size_t *iterator; typedef const size_t *const_iterator; typedef size_t value_type;
  size_t size() const { return n; }
  const size_t *begin() const { return p; }
  const size_t *end() const { return p + n; }
};
struct m_icont {
  size_t n;
  struct iterator {
    size_t i;
    typedef std::forward_iterator_tag iterator_category; typedef size_t value_type; typedef ptrdiff_t difference_type; typedef const size_t *pointer; typedef size_t reference;
    bool operator!=(const iterator &o) const { return i != o.i; }
    bool operator==(const iterator &o) const { return i == o.i; }
    iterator &operator++() { ++ i; return *this; }
    iterator operator++(int) { iterator t = *this; ++ i; return t; }
    size_t operator*() const { return i; }
  };
  size_t size() const { return n; }
  iterator begin() { return iterator{0}; }
  iterator end() { return iterator{n}; }
};
// iterators collected from a container: the K-th one pushed must be K (checked); their number is opaque
extern "C" void m_elem(size_t);
extern "C" size_t m_nits();
namespace std {
template <> struct mvector<m_icont::iterator> {
  m_icont::iterator cur;
  typedef m_icont::iterator value_type;
  mvector() {}
  void reserve(size_t) {}
  void push_back(const m_icont::iterator &it) { m_elem(it.i); }
  void emplace_back(const m_icont::iterator &it) { m_elem(it.i); }
  m_icont::iterator &operator[](size_t i) { cur.i = i; return cur; }
  m_icont::iterator &at(size_t i) { cur.i = i; return cur; }
  size_t size() const { return m_nits(); }
  bool empty() const { return m_nits() == 0; }
};
}
#define thread mthread
#define vector mvector
#include <ftk/object.hh>
#undef vector
#undef thread
using namespace ftk;
'''


def hook(E, name, args, env, mem, owned, cond, I):
    V = lambda j: E.val(env, args[j])
    if name in ("m_task", "m_join", "m_push", "m_range", "m_elem"):
        E.seen.append((name, [V(j) for j in range(len(args))], E.D.AND(E.base, cond), E.ctx))
        return rc(0)
    if name == "m_spawn":
        p, n = V(0), V(1)
        caps = []
        for (o, s), v in (mem.get(p.obj) or {}).items():
            if o != "fill" and o.is_const and isinstance(v, Ptr) and v.obj and v.obj.startswith(("stack", "heap")):
                caps.append(v.obj)
        E.seen.append((name, caps, E.D.AND(E.base, cond), E.ctx))
        return rc(0)
    if name == "m_alloc":
        return Ptr(E.newobj("array"), rc(0))
    if name in ("m_lo", "m_hi", "m_nworkers", "m_hw", "m_nits"):
        return Rat(pvar(name))
    if "set_affinity" in name or name in ("pthread_self", "pthread_setaffinity_np", "sched_setaffinity", "_ZNSt6thread20hardware_concurrencyEv"):
        return Rat(pvar("hw"))
    return NotImplemented



def single(r):
    """the atom a value consists of"""
    if isinstance(r, Rat) and r.d == P1 and len(r.n.t) == 1:
        (m, c), = r.n.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], UF):
            return m[0][0]
    return None


def uniq(x, name):
    """the recorded calls without the exploratory runs of the engine: the last one per calling context"""
    loops = {l.n for l in x.E.loops}
    out = []
    for n, a, g, ctx in x.E.seen:
        if n == name and all(c in loops for c in ctx) and g is not False:
            out.append((a, g, ctx))
    return out


def coef1(p, var):
    a, b = {}, {}
    for m, c in p.t.items():
        d = dict(m)
        e = d.get(var, 0)
        if e == 1:
            a[tuple((v, k) for v, k in m if v != var)] = c
        elif e == 0:
            b[m] = c
        else:
            raise ValueError
    return Poly(a), Poly(b)


def restk(p, k):
    return Poly({m: c for m, c in p.t.items() if f"K{k}" not in dict(m)})


def tasks(x, calls, ntasks, T, what="task"):
    """every task number 0 <= j < ntasks is passed to exactly one call. calls: [(Rat task number, gate, ctx)]. Threads deal the tasks out round-robin with stride T"""
    D = x.D
    D.ints = lambda v: True
    starts = []
    spawning = {c for _, _, ctx in uniq(x, "m_spawn") for c in ctx}
    if isinstance(ntasks.v, Rat) and ntasks.v.is_const and ntasks.v.const == 0 and not calls:
        return
    for a, g, ctx in calls:
        if not isinstance(a, Rat):
            x.obl.append((what, False, f"a {what} number depends on a condition: {str(a)[:300]}"))
            continue
        outer = [c for c in ctx if c in spawning]
        inner = [c for c in ctx if c not in spawning]
        if len(outer) > 1 or len(inner) > 1:
            x.obl.append((what, False, f"{what} {a} is run in {len(ctx)} nested loops"))
            continue
        care = gate = S(D, True)
        if outer:
            l = next(l for l in x.E.loops if l.n == outer[0])
            gate = S(D, l.exec)
            care = (x.var(f"K{outer[0]}") >= 0) & gate
        base = a.n
        plain = False
        if inner:
            k = f"K{inner[0]}"
            try:
                st, base = coef1(a.n, k)
            except ValueError:
                st, base = P0, a.n
            plain = not spawning and req(Rat(st), rc(1))     # one plain loop over all tasks
            ok = req(Rat(st), Rat(T)) or plain
            x.obl.append((f"{what}: stride", ok, "" if ok else f"a thread advances by {st} {what}s per iteration, but {T} threads share them"))
            if not ok:
                continue
            dom = S(D, a) < ntasks
            x.eq(f"{what}s run by a thread", S(D, g), dom & gate, care & (x.var(k) >= 0) & (S(D, a) <= ntasks + S(D, Rat(T)) - 1))
        else:       # the loop runs at most once: one task per thread
            x.eq(f"{what} run by a thread", S(D, g), (S(D, a) < ntasks) & gate, care)
            if not any(isinstance(q[0], Rat) and q[2][:-1] == ctx and req(Rat(restk(q[0].n, q[2][-1])), radd(a, Rat(T))) for q in calls if len(q[2]) == len(ctx) + 1):
                x.eq(f"no further {what} of a thread", S(D, radd(a, Rat(T))) >= ntasks, True, care & (S(D, a) < ntasks))
        starts.append(("all" if plain else None, base, outer))
    if any(s[0] for s in starts):
        x.obl.append((f"{what}s covered once", len(starts) == 1 and not starts[0][1].t, f"one loop over all {what}s starting at 0 expected, found {len(starts)}"))
        return
    # a first task run ahead of the loop over the rest
    starts = [s for s in starts if not any(t is not s and t[2] == s[2] and req(Rat(padd(t[1], T)), Rat(s[1])) for t in starts)]
    one = [s for s in starts if not s[2]]
    two = [s for s in starts if s[2]]
    ok = len(one) <= 1 and len(two) <= 1 and len(one) + len(two) == len(starts) and starts
    msg = f"{len(one)} loops of the calling thread and {len(two)} of started threads run {what}s"
    if ok and not two:
        ok = req(Rat(one[0][1]), rc(0)) and req(Rat(T), rc(1))
        msg = f"no thread runs the {what}s of the other residues"
    elif ok:
        l = next(l for l in x.E.loops if l.n == two[0][2][0])
        K = x.var(f"K{l.n}")
        s = S(D, Rat(two[0][1])) - K
        t = S(D, Rat(T))
        lo = 0
        if one:
            m = Rat(one[0][1])
            if req(m, rc(0)):
                lo, n = 1, t - 1
            elif req(m, radd(Rat(T), rc(1), -1)):
                lo, n = 0, t - 1
            else:
                lo, n, ok = 0, t, False
                msg = f"the calling thread starts at {what} {m}"
        else:
            n = t
        if ok:
            x.eq(f"first {what} of the started threads", s, x.c(lo))
            x.eq("threads started", S(D, l.exec), K < n, (K >= 0) & (K <= n))
    x.obl.append((f"{what}s covered once", bool(ok), msg))


def threads(x):
    """every started thread is kept and joined exactly once; its closure shares no variable that the spawning loop changes"""
    D = x.D
    sp, pu, jo = uniq(x, "m_spawn"), uniq(x, "m_push"), uniq(x, "m_join")
    x.obl.append(("one spawn", len(sp) <= 1 and len(pu) == len(sp), f"{len(sp)} statements start threads, {len(pu)} keep them"))
    for (caps, g, ctx), (_, g2, ctx2) in zip(sp, pu):
        x.obl.append(("kept", ctx == ctx2, "a started thread is not kept for joining"))
        x.eq("every started thread is kept", S(D, g2), S(D, g))
        changed = set()
        for l in x.E.loops:
            if l.n in ctx:
                changed |= {w[0] for w in l.writes}
        bad = [c for c in caps if c in changed]
        x.obl.append(("closure", not bad, f"the started thread shares a variable that the spawning loop goes on changing ({', '.join(bad)})"))
    if sp:
        x.obl.append(("one join loop", len(jo) == 1, f"{len(jo)} statements join threads, expected one"))
    for a, g, ctx in jo:
        if len(ctx) != 1:
            x.obl.append(("join loop", False, "threads are not joined in one loop over all of them"))
            continue
        k, n = x.var(f"K{ctx[0]}"), x.var("m_nworkers")
        x.eq("thread joined", S(D, a[0]), k)
        x.eq("all threads are joined", S(D, g), k < n, (k >= 0) & (k <= n))


def c03():
    """parallel_for"""
    L = []
    NT = {"pth": 0, "omp": 1, "tbb": 6}
    for be, num in NT.items():
        # more tasks than threads, fewer, as many; one or no thread; no or one task
        for case, ge, T, va, vb in (("few", ["nth-2", "n-nth-1"], "nth", "n", "nth"), ("many", ["nth-n-1", "n-2"], "n", "n", "nth"), ("same", ["n-2"], "n", "n", "n"),
                                    ("one", ["n-2"], "1", "n", "1"), ("none", ["n-2"], "1", "n", "0"), ("empty", ["nth-2"], "1", "0", "nth"), ("single", ["nth-2"], "1", "1", "nth")):
            if be != "pth" and case != "few":
                continue
            for aff in (0, 1):
                nm = f"w_{be}_{case}{aff}"
                F = Facts(ge + ["n", "hw", "m_hi-m_lo"], ["n", "m_nworkers", "m_lo"])

                def chk(x, T=T, be=be, va=va):
                    t = pconst(1) if T == "1" else pvar(T)
                    c = [(a[0], g, ctx) for a, g, ctx in uniq(x, "m_task")]
                    if be == "tbb":
                        r = uniq(x, "m_range")
                        x.obl.append(("one range", len(r) == 1, f"{len(r)} ranges are run"))
                        for a, g, ctx in r:
                            x.eq("range begin", S(x.D, a[0]), x.c(0))
                            x.eq("range end", S(x.D, a[1]), x.var("n"))
                        x.obl.append(("one loop", len(c) == 1, f"{len(c)} statements run tasks of a sub-range"))
                        for a, g, ctx in c:
                            x.D.ints = lambda v: True
                            k = x.var(f"K{ctx[-1]}") if ctx else x.c(0)
                            x.eq("task of a sub-range", S(x.D, a), x.var("m_lo") + k)
                            x.eq("all tasks of a sub-range", S(x.D, g), (x.var("m_lo") + k) < x.var("m_hi"), (k >= 0) & ((x.var("m_lo") + k) <= x.var("m_hi")))
                        return
                    if be == "omp":
                        t = pconst(1)
                    sp = {l for _, _, ctx in uniq(x, "m_spawn") for l in ctx}
                    if T == "1" and any(set(ctx) & sp for _, _, ctx in c):
                        c = [q for q in c if not set(q[2]) & sp]        # no thread is started (checked below): the calling thread does it all
                        for l in x.E.loops:
                            if any(l.n == ctx[0] for _, _, ctx in uniq(x, "m_spawn")):
                                x.eq("no thread", S(x.D, l.exec), False, x.var(f"K{l.n}") >= 0)
                    tasks(x, c, x.var("n") if va == "n" else x.c(int(va)), t)
                    threads(x)
                L.append(Entry(nm, f'extern "C" void {nm}(size_t n, int nth) {{ object::parallel_for({va}, [](size_t j) {{ m_task(j); }}, {num}, {vb}, {"true" if aff else "false"}); }}', ["=n", "=nth"], chk, OBJ, hook=hook, facts=F))
    # --- over the elements of a container, and over its iterators: the i-th task is the i-th element
    for how in ("set", "iter"):
        for case, ge, T, vb in (("few", ["nth-2", "n-nth-1"], "nth", "nth"), ("one", ["n-2"], "1", "1")):
            nm = f"w_{how}_{case}"

            def chk(x, T=T, how=how):
                t = pconst(1) if T == "1" else pvar(T)
                if how == "iter":
                    x.D.ints = lambda v: True
                    e = uniq(x, "m_elem")
                    x.obl.append(("one collecting loop", len(e) == 1 and len(e[0][2]) == 1, f"{len(e)} statements collect iterators, expected one in one loop"))
                    for a, g, ctx in e:
                        if len(ctx) == 1:
                            k, n = x.var(f"K{ctx[0]}"), x.var("n")
                            x.eq("K-th element", S(x.D, a[0]), k)
                            x.eq("all elements", S(x.D, g), k < n, (k >= 0) & (k <= n))
                    calls = [(a[0], g, ctx) for a, g, ctx in uniq(x, "m_task")]
                    if T == "1":
                        sp = {l for _, _, ctx in uniq(x, "m_spawn") for l in ctx}
                        calls = [q for q in calls if not set(q[2]) & sp]
                    tasks(x, calls, x.var("m_nits"), t)
                    threads(x)
                    return
                calls, objs = [], set()
                for a, g, ctx in uniq(x, "m_task"):
                    u = single(a[0])
                    if u is None or u.name != "dirty":
                        x.obl.append(("element", False, f"a task works on {str(a[0])[:200]}, which is no element of the container's copy"))
                        continue
                    objs.add(u.args[1])
                    calls.append((rdiv(u.args[2], rc(8)), g, ctx))
                x.obl.append(("one copy of the elements", len(objs) == 1, f"tasks read {len(objs)} arrays"))
                x.D.ints = lambda v: True
                for o in objs:
                    ws = [(l, w) for l in x.E.loops for w in l.writes if w[0] == o]
                    x.obl.append(("elements collected once", len(ws) == 1, f"{len(ws)} loops fill the array of elements"))
                    for l, (_, off, sz, v) in ws:
                        k, n = x.var(f"K{l.n}"), x.var("n")
                        x.eq("place of the K-th element", S(x.D, off), k * 8)
                        x.eq("K-th element", S(x.D, v), S(x.D, Rat(pvar(UF("ld", ("ps", canon(rmul(k.v, rc(8)))))))))
                        x.eq("all elements", S(x.D, l.exec), k < n, (k >= 0) & (k <= n))
                if T == "1":
                    sp = {l for _, _, ctx in uniq(x, "m_spawn") for l in ctx}
                    calls = [q for q in calls if not set(q[2]) & sp]
                tasks(x, calls, x.var("n"), t)
                threads(x)
            call = (f"m_cont c{{ps, n}}; object::parallel_for<size_t, m_cont>(c, [](const size_t &v) {{ m_task(v); }}, FTK_THREAD_PTHREAD, {vb}, false);" if how == "set" else
                    f"m_icont c{{n}}; object::parallel_for_container<m_icont>(c, [](m_icont::iterator it) {{ m_task(it.i); }}, FTK_THREAD_PTHREAD, {vb}, false);")
            L.append(Entry(nm, f'extern "C" void {nm}(size_t *ps, size_t n, int nth) {{ {call} }}', ["ps", "=n", "=nth"], chk, OBJ, hook=hook, facts=Facts([g.replace("n-", "m_nits-") if how == "iter" else g for g in ge] + ["n", "hw"], ["n", "m_nworkers", "m_nits"])))
    return PRE, L
