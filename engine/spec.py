"""Specification layer over the value-numbering engine: wrapper TU generation, symbolic arithmetic, obligations."""
import os, re, sys, tempfile, shutil, traceback
from gv import *
from irvn import Engine, UndefBranch
import llir

REPO = os.environ.get("FTK_REPO", "/repo")


class S:
    """gated symbolic value with operators"""
    __slots__ = ("D", "v")

    def __init__(self, D, v):
        self.D = D
        self.v = v

    def _l(self, o):
        if isinstance(o, S):
            return o.v
        if isinstance(o, bool):
            return o
        return rc(Fraction(o) if not isinstance(o, Fraction) else o)

    def _b(self, f, o, rev=False):
        a, b = self.v, self._l(o)
        if rev:
            a, b = b, a
        return S(self.D, self.D.bin(f, a, b))

    def __add__(self, o): return self._b(radd, o)
    __radd__ = __add__
    def __sub__(self, o): return self._b(lambda a, b: radd(a, b, -1), o)
    def __rsub__(self, o): return self._b(lambda a, b: radd(a, b, -1), o, True)
    def __mul__(self, o): return self._b(rmul, o)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._b(rdiv, o)
    def __rtruediv__(self, o): return self._b(rdiv, o, True)
    def __neg__(self): return 0 - self
    def __pow__(self, n):
        r = S(self.D, rc(1))
        for _ in range(n):
            r = r * self
        return r

    def cmp(self, pred, o):
        return S(self.D, self.D.cmp(pred, self.v, self._l(o)))

    def __lt__(self, o): return self.cmp("<", o)
    def __le__(self, o): return self.cmp("<=", o)
    def __gt__(self, o): return self.cmp(">", o)
    def __ge__(self, o): return self.cmp(">=", o)
    def iszero(self): return self.cmp("==", 0)

    def __and__(self, o): return S(self.D, self.D.AND(self.v, self._l(o)))
    def __or__(self, o): return S(self.D, self.D.OR(self.v, self._l(o)))
    def __invert__(self): return S(self.D, self.D.NOT(self.v))

    def ite(self, a, b):
        return S(self.D, self.D.ite(self.v, self._l(a), self._l(b)))

    def abs(self):
        D = self.D
        return S(D, D.un(lambda a: D.sign3(a, rmul(rc(-1), a), rc(0), a), self.v))

    def sign(self):
        D = self.D
        return S(D, D.un(lambda a: D.sign3(a, rc(-1), rc(0), rc(1)), self.v))

    def sqrt(self):
        def f(a):
            if a.is_const:
                from math import isqrt
                c = Fraction(a.const)
                if c >= 0 and isqrt(c.numerator) ** 2 == c.numerator and isqrt(c.denominator) ** 2 == c.denominator:
                    return rc(Fraction(isqrt(c.numerator), isqrt(c.denominator)))
            return Rat(pvar(UF("sqrt", (canon(a),))))
        return S(self.D, self.D.un(f, self.v))

    def fn(self, name, *o):
        return S(self.D, self.D.apply(lambda *xs: Rat(pvar(UF(name, tuple(canon(x) for x in xs)))), self.v, *[self._l(x) for x in o]))


class Mismatch(Exception):
    pass


class Ctx:
    def __init__(self, eng, entry):
        self.E = eng
        self.D = eng.D
        self.entry = entry
        self.obl = []          # (label, ok, detail)
        self.ret = None
        self.mem = {}

    def c(self, x):
        return S(self.D, rc(Fraction(x)))

    def var(self, n):
        return S(self.D, Rat(pvar(n)))

    def inp(self, obj, *shape):
        """nested list of input symbols of an array argument"""
        def rec(base, sh):
            if not sh:
                return self.var(f"{obj}[{base}]")
            st = 1
            for s in sh[1:]:
                st *= s
            return [rec(base + i * st, sh[1:]) for i in range(sh[0])]
        return rec(0, list(shape))

    def out(self, obj, *shape, size=8):
        cells = self.mem.get(obj, {})

        def get(k):
            c = cells.get((rc(k * size), size))
            if c is None:
                g = self.E.filled(cells, rc(k * size), size)
                return S(self.D, self.D.ite(g, rc(0), Rat(pvar(f"{obj}[{k}]"))) if g is not True else rc(0))      # not written: keeps its input value
            return S(self.D, c)

        def rec(base, sh):
            if not sh:
                return get(base)
            st = 1
            for s in sh[1:]:
                st *= s
            return [rec(base + i * st, sh[1:]) for i in range(sh[0])]
        return rec(0, list(shape))

    def written(self, obj):
        return [k for k in self.mem.get(obj, {}) if k[0] != "fill"]

    def eq(self, label, got, want, care=True):
        if isinstance(got, list):
            if not isinstance(want, list):
                want = [want] * len(got)
            for i, (g, w) in enumerate(zip(got, want)):
                self.eq(f"{label}[{i}]", g, w, care)
            return
        g = got.v if isinstance(got, S) else rc(got)
        w = want.v if isinstance(want, S) else (want if isinstance(want, bool) else rc(Fraction(want)))
        if isinstance(w, bool) or any(isinstance(x, bool) for x in self.D.leaves(w)):
            pass
        if isinstance(g, bool) != isinstance(w, bool) and not isinstance(w, Node) and not isinstance(g, Node):
            if isinstance(g, bool):
                g = rc(int(g))
            if isinstance(w, bool):
                w = rc(int(w))
        d = self.D.diff(g, w, care.v if isinstance(care, S) else care)
        if d is None:
            self.obl.append((label, True, ""))
        else:
            path, a, b = d
            p = " and ".join(f"{str(v)[:120]} {r.replace('<', '< 0').replace('=', '= 0').replace('>', '> 0')}" for v, r in path)
            self.obl.append((label, False, f"{label}: code computes {str(a)[:300]} but the definition gives {str(b)[:300]}" + (f" when {p[:2000]}" if p else "")))

    def zero(self, label, got, care=True):
        self.eq(label, got, 0, care)


class Entry:
    """one wrapper function and its obligations; `fn` is the wrapper to analyse (entries may share one)"""

    def __init__(self, name, code, args, check, where, oracle=None, fn=None, ranges=None, hook=None, mem=None, facts=None):
        self.facts = facts
        self.ranges, self.hook, self.mem = ranges or {}, hook, mem
        self.name, self.code, self.args, self.check, self.where, self.oracle, self.fn = name, code, args, check, where, oracle, fn or name


def make_config(dst, feats=()):
    s = open(os.path.join(REPO, "include/ftk/config.hh.in")).read()
    s = s.replace("${FTK_VERSION}", "0").replace("${FTK_FP_PRECISION}", "32768").replace("${FTK_CP_MAX_NUM_VARS}", "3")

    def f(m):
        return f"#define {m.group(1)} 1" if m.group(1) in feats else f"/* #undef {m.group(1)} */"
    s = re.sub(r"#cmakedefine\s+(\w+)(\s+\S+)?", f, s)
    os.makedirs(os.path.join(dst, "ftk"), exist_ok=True)
    open(os.path.join(dst, "ftk/config.hh"), "w").write(s)


class Analysis:
    """result of running a list of entries"""

    def __init__(self):
        self.viol, self.obl, self.err = [], 0, []
        self.funcs, self.insts, self.blocks, self.ok = set(), 0, 0, 0
        self.per = []


def forkmap(f, items, jobs):
    """map f over items in forked workers (dynamic order); results must be picklable"""
    import multiprocessing as mp
    global _fm
    _fm = (f, items)
    with mp.get_context("fork").Pool(jobs) as p:
        return p.map(_fmone, range(len(items)), chunksize=1)


def _fmone(i):
    f, items = _fm
    return f(items[i])


def run_entries(pre, entries, flags=(), feats=(), keep=None, defs=(), jobs=None, full=False, noinline=(), generic=False):
    """compile one TU holding all wrappers, run the engine on each, collect obligations"""
    A = Analysis()
    tmp = tempfile.mkdtemp(prefix="ftkvn")
    try:
        make_config(tmp, feats)
        cpp = os.path.join(tmp, "t.cpp")
        with open(cpp, "w") as f:
            f.write(pre + "\n" + "\n".join(e.code for e in entries) + "\n")
        ll = llir.compile_ir(cpp, os.path.join(tmp, "t.ll"), [os.path.join(REPO, "include"), tmp], extra=list(flags), defs=list(defs),
                             **(dict(api=sorted({e.fn for e in entries}), exceptions=True, noinline=noinline, generic=generic) if full else {}))
        M = llir.Module(ll)
        if keep:
            shutil.copy(ll, keep)
        def one(e):
            E = Engine(M)
            if e.oracle:
                E.D.oracle = e.oracle
            if e.facts:
                E.facts = e.facts
                E.D.oracle = e.facts.oracle
            E.ranges, E.hook, E.generic = e.ranges, e.hook, generic
            x = Ctx(E, e)
            args = []
            for a in e.args:
                if a is None:
                    args.append(Ptr(None, rc(0)))
                elif a.startswith("="):
                    args.append(Rat(pvar(a[1:])))
                elif a.startswith("?"):
                    args.append(E.D.sign3(Rat(pvar(a[1:])), True, False, True))
                else:
                    args.append(Ptr(a, rc(0)))
            err = None
            try:
                r, m = E.run(e.fn, args, e.mem(E) if e.mem else None)
                x.ret = S(E.D, r) if r is not None and not isinstance(r, tuple) else r
                x.mem = m
                e.check(x)
            except UndefBranch as ex:
                x.obl.append(("control", False, f"control flow depends on an uninitialised value: {ex}"))
            except Unsupported as ex:
                err = f"{e.name} ({e.where}): {ex}"
            except Exception:
                err = f"{e.name} ({e.where}): " + traceback.format_exc()[-600:]
            return E.ninst, E.nblk, x.obl, err
        jobs = jobs or min(8, max(1, len(entries) // 6))
        if jobs <= 1:
            res = [one(e) for e in entries]
        else:
            res = forkmap(one, entries, jobs)
        for e, (ni, nb_, obl, err) in zip(entries, res):
            A.insts += ni
            A.blocks += nb_
            nb = 0
            for lab, ok, det in obl:
                A.obl += 1
                if ok:
                    A.ok += 1
                else:
                    nb += 1
                    A.viol.append(dict(entry=e.name, where=e.where, obligation=lab, detail=det))
            if err:
                A.err.append(err)
            elif not obl:
                A.err.append(f"{e.name}: no obligation generated")
            A.per.append(dict(entry=e.name, where=e.where, instructions=ni, obligations=len(obl), failed=nb))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return A


# ------------------------------------------------------------------ algebra helpers for specifications
def det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    r = None
    for j in range(n):
        mi = [[M[i][k] for k in range(n) if k != j] for i in range(1, n)]
        t = M[0][j] * det(mi)
        if j % 2:
            t = 0 - t
        r = t if r is None else r + t
    return r


def matmul(A, B):
    return [[sum_((A[i][k] * B[k][j] for k in range(len(B)))) for j in range(len(B[0]))] for i in range(len(A))]


def matvec(A, x):
    return [sum_(A[i][k] * x[k] for k in range(len(x))) for i in range(len(A))]


def tr(A):
    return [list(r) for r in zip(*A)]


def sum_(it):
    r = None
    for x in it:
        r = x if r is None else r + x
    return r


def ident(n):
    return [[1 if i == j else 0 for j in range(n)] for i in range(n)]
