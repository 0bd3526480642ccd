"""Gated value domain used by the IR value-numbering engine.

Leaf values are rational functions over named atoms (inputs, uninterpreted
function applications) with exact rational coefficients.  A gated value is a
reduced, ordered, hash-consed decision diagram whose inner nodes test the sign
(-,0,+) of a primitive polynomial.  Equality of two gated values built in one
Dom is decided on the normal forms; no path is enumerated and no solver is used.
"""
from fractions import Fraction
from math import floor, gcd


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- polynomials
class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return self.t == o.t

    @property
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    @property
    def const(self):
        return self.t.get((), 0)

    def __str__(self):
        if not self.t:
            return "0"
        out = []
        for m in sorted(self.t, key=lambda m: (-sum(e for _, e in m), [str(v) for v, _ in m])):
            c = self.t[m]
            s = "*".join(str(v) if e == 1 else f"{v}^{e}" for v, e in m)
            if not s:
                out.append(f"{c}")
            elif c == 1:
                out.append(s)
            elif c == -1:
                out.append("-" + s)
            else:
                out.append(f"{c}*{s}")
        return " + ".join(out).replace("+ -", "- ")

    __repr__ = __str__

    def vars(self):
        return {v for m in self.t for v, _ in m}


P0 = Poly({})
P1 = Poly({(): 1})


def norm_c(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def pconst(c):
    c = norm_c(c)
    return Poly({(): c}) if c != 0 else P0


def pvar(v):
    return Poly({((v, 1),): 1})


def padd(a, b, k=1):
    if not b.t:
        return a
    if not a.t and k == 1:
        return b
    t = dict(a.t)
    for m, c in b.t.items():
        n = t.get(m, 0) + k * c
        if n == 0:
            t.pop(m, None)
        else:
            t[m] = norm_c(n)
    return Poly(t)


_mono_cache = {}


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    k = (a, b)
    r = _mono_cache.get(k)
    if r is not None:
        return r
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    r = tuple(sorted(d.items(), key=lambda x: _vkey(x[0])))
    _mono_cache[k] = r
    return r


_vk = {}


def _vkey(v):
    k = _vk.get(v)
    if k is None:
        k = _vk[v] = str(v)
    return k


def pmul(a, b):
    if not a.t or not b.t:
        return P0
    if a.is_const and a.const == 1:
        return b
    if b.is_const and b.const == 1:
        return a
    t = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = mono_mul(m1, m2)
            n = t.get(m, 0) + c1 * c2
            if n == 0:
                t.pop(m, None)
            else:
                t[m] = n
    if len(t) > 200000:
        raise Unsupported("polynomial too large")
    p = desqrt(Poly({m: norm_c(c) for m, c in t.items()}))
    if len(p.t) > 1 and not a.is_const and not b.is_const:
        sp, k = primitive(p)
        if k not in _factors:
            (sa, A), (sb, B) = primitive(a), primitive(b)
            _factors[k] = (A, B, sa * sb * sp < 0)
    return p


_factors = {}      # primitive product -> primitive factors and whether the sign flips (recorded as products are formed)


def _is_sqrt(v):
    return isinstance(v, UF) and v.name == "sqrt" and v.args[0].d == P1


def desqrt(p):
    """sqrt(u)^2 = u (u >= 0 wherever the root is real)"""
    if not UF._tab or not any(e > 1 and _is_sqrt(v) for m in p.t for v, e in m):
        return p
    out = P0
    for m, c in p.t.items():
        acc = pconst(c)
        rest = []
        for v, e in m:
            if e > 1 and _is_sqrt(v):
                for _ in range(e // 2):
                    acc = pmul(acc, v.args[0].n)
                if e % 2:
                    rest.append((v, 1))
            else:
                rest.append((v, e))
        out = padd(out, pmul(acc, Poly({tuple(rest): 1})))
    return out


def sqrt_split(p):
    """p = A + B*sqrt(q) with exactly one square root occurring linearly, else None"""
    if not UF._tab:
        return None
    vs = {v for v in p.vars() if _is_sqrt(v)}
    if len(vs) != 1:
        return None
    s = vs.pop()
    A, B = {}, {}
    for m, c in p.t.items():
        r = tuple((v, e) for v, e in m if v is not s)
        if len(r) == len(m):
            A[m] = c
        else:
            B[r] = c
    return Poly(A), Poly(B), s.args[0].n


def pscale(a, c):
    if c == 0:
        return P0
    if c == 1:
        return a
    return Poly({m: norm_c(v * c) for m, v in a.t.items()})


def primitive(p):
    """p = s * q with q primitive integer polynomial with positive leading coeff."""
    if not p.t:
        return 1, p
    dl = 1
    for c in p.t.values():
        if isinstance(c, Fraction):
            dl = dl * c.denominator // gcd(dl, c.denominator)
    g = 0
    for c in p.t.values():
        g = gcd(g, int(c * dl))
    lead = max(p.t, key=lambda m: [(_vkey(v), e) for v, e in m])
    s = Fraction(g, dl)
    if p.t[lead] < 0:
        s = -s
    return s, pscale(p, 1 / s)


def pdivexact(a, b):
    """exact division a/b or None"""
    if b.is_const:
        return pscale(a, Fraction(1) / Fraction(b.const))
    if not a.t:
        return P0
    key = lambda m: (sum(e for _, e in m), [(_vkey(v), e) for v, e in m])
    # graded order is not fully monomial-compatible with this tuple comparison; use lex on dense exponents
    vs = sorted(a.vars() | b.vars(), key=_vkey)
    idx = {v: i for i, v in enumerate(vs)}

    def dense(m):
        d = [0] * len(vs)
        for v, e in m:
            d[idx[v]] = e
        return tuple(d)
    A = {dense(m): Fraction(c) for m, c in a.t.items()}
    B = {dense(m): Fraction(c) for m, c in b.t.items()}
    lb = max(B)
    cb = B[lb]
    q = {}
    n = 0
    while A:
        la = max(A)
        d = tuple(x - y for x, y in zip(la, lb))
        if min(d, default=0) < 0:
            return None
        c = A[la] / cb
        q[d] = c
        for mb, c2 in B.items():
            m = tuple(x + y for x, y in zip(d, mb))
            v = A.get(m, 0) - c * c2
            if v == 0:
                A.pop(m, None)
            else:
                A[m] = v
        n += 1
        if n > 5000:
            return None
    return Poly({tuple((vs[i], e) for i, e in enumerate(d) if e): norm_c(c) for d, c in q.items()})


# ---------------------------------------------------------------- atoms
class UF:
    """uninterpreted application: name + tuple of canonical args"""
    _tab = {}
    __slots__ = ("name", "args", "s")

    def __new__(cls, name, args):
        k = (name, args)
        r = cls._tab.get(k)
        if r is None:
            r = object.__new__(cls)
            r.name, r.args = name, args
            r.s = f"{name}({','.join(map(str, args))})"
            cls._tab[k] = r
        return r

    def __str__(self):
        return self.s

    __repr__ = __str__


# ---------------------------------------------------------------- rationals
class Rat:
    __slots__ = ("n", "d", "_h")

    def __init__(self, n, d=P1):
        self.n, self.d, self._h = n, d, None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.n, self.d))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Rat) and self.n == o.n and self.d == o.d

    def __str__(self):
        return str(self.n) if self.d == P1 else f"({self.n})/({self.d})"

    __repr__ = __str__

    @property
    def is_const(self):
        return self.n.is_const and self.d.is_const

    @property
    def const(self):
        return norm_c(Fraction(self.n.const) / Fraction(self.d.const))


def mkrat(n, d):
    if not d.t:
        raise Unsupported("division by zero polynomial")
    if d.is_const:
        return Rat(pscale(n, Fraction(1) / Fraction(d.const)))
    if not n.t:
        return Rat(P0)
    s, dp = primitive(d)
    n = pscale(n, Fraction(1) / Fraction(s))
    if n == dp:
        return Rat(P1)
    # cancel when the denominator divides the numerator
    if len(n.t) >= len(dp.t) and len(n.t) < 400:
        q = pdivexact(n, dp)
        if q is not None:
            return Rat(q)
    # cancel common monomial content
    def mono_gcd(p):
        it = iter(p.t)
        g = dict(next(it))
        for m in it:
            dm = dict(m)
            for v in list(g):
                e = min(g[v], dm.get(v, 0))
                if e:
                    g[v] = e
                else:
                    del g[v]
            if not g:
                break
        return g
    gn, gd = mono_gcd(n), mono_gcd(dp)
    g = {v: min(e, gd[v]) for v, e in gn.items() if v in gd}
    if g:
        def strip(p):
            t = {}
            for m, c in p.t.items():
                t[tuple((v, e - g.get(v, 0)) for v, e in m if e - g.get(v, 0))] = c
            return Poly(t)
        n, dp = strip(n), strip(dp)
        if dp.is_const:
            return Rat(pscale(n, Fraction(1) / Fraction(dp.const)))
    return Rat(n, dp)


def rc(c):
    return Rat(pconst(Fraction(c)))


def radd(a, b, k=1):
    if a.d == b.d:
        n = padd(a.n, b.n, k)
        return Rat(n) if a.d == P1 else mkrat(n, a.d)
    if a.d != P1 and b.d != P1:
        q = pdivexact(a.d, b.d) if len(a.d.t) >= len(b.d.t) else None
        if q is not None:
            return mkrat(padd(a.n, pmul(b.n, q), k), a.d)
        q = pdivexact(b.d, a.d) if len(b.d.t) >= len(a.d.t) else None
        if q is not None:
            return mkrat(padd(pmul(a.n, q), b.n, k), b.d)
    return mkrat(padd(pmul(a.n, b.d), pmul(b.n, a.d), k), pmul(a.d, b.d))


def rmul(a, b):
    if a.d == P1 and b.d == P1:
        return Rat(pmul(a.n, b.n))
    n1, d1, n2, d2 = a.n, a.d, b.n, b.d
    if n1 == d2:
        return mkrat(n2, d1)
    if n2 == d1:
        return mkrat(n1, d2)
    return mkrat(pmul(n1, n2), pmul(d1, d2))


def rdiv(a, b):
    if a.d == P1 and b.d == P1:
        return mkrat(a.n, b.n)
    if a.d == b.d:
        return mkrat(a.n, b.n)
    return rmul(a, Rat(b.d, P1) if b.n == P1 else mkrat(b.d, b.n))


def req(a, b):
    if a == b:
        return True
    return pmul(a.n, b.d) == pmul(b.n, a.d)


def canon(r):
    """canonical rational for use inside an atom"""
    if r.d == P1:
        return r
    import sympy
    names = {}

    def tosym(p):
        e = sympy.Integer(0)
        for m, c in p.t.items():
            c = Fraction(c)
            x = sympy.Rational(c.numerator, c.denominator)
            for v, k in m:
                s = names.setdefault(_vkey(v), (sympy.Symbol("v%d" % len(names)), v))[0]
                x *= s ** k
            e += x
        return e
    n, d = sympy.fraction(sympy.cancel(tosym(r.n) / tosym(r.d)))
    syms = [s for s, _ in names.values()]
    back = {s: v for s, v in names.values()}

    def frm(e):
        if not syms:
            return pconst(Fraction(int(e.p), int(e.q)))
        pp = sympy.Poly(e, *syms)
        t = {}
        for mon, c in pp.terms():
            m = tuple(sorted(((back[syms[i]], k) for i, k in enumerate(mon) if k), key=lambda x: _vkey(x[0])))
            t[m] = norm_c(Fraction(int(c.p), int(c.q)))
        return Poly(t)
    return mkrat(frm(n), frm(d))


# ---------------------------------------------------------------- diagrams
class Node:
    __slots__ = ("v", "k", "id")   # var index, children (neg, zero, pos)

    def __repr__(self):
        return f"<{self.v}?{self.k}>"


class Dom:
    """decision-diagram manager"""

    def __init__(self):
        self.vars = []            # primitive polys
        self.vidx = {}
        self.tab = {}
        self.nn = 0
        self.memo = {}
        self.ints = None          # predicate: the variables that are integers (diff only)
        self.nonzero = set()      # polynomials assumed non-zero (denominators whose sign was tested)
        self.oracle = None        # optional: primitive poly -> known sign (-1,0,1) or None (an assumption of the analysis)

    # --- construction
    def var(self, p):
        i = self.vidx.get(p)
        if i is None:
            i = self.vidx[p] = len(self.vars)
            self.vars.append(p)
        return i

    def mk(self, v, kids):
        if kids[0] is kids[1] and kids[1] is kids[2]:
            return kids[0]
        if not isinstance(kids[0], Node) and not isinstance(kids[1], Node) and not isinstance(kids[2], Node) \
                and type(kids[0]) is type(kids[1]) is type(kids[2]) and kids[0] == kids[1] == kids[2]:
            return kids[0]
        key = (v,) + tuple(self.key(k) for k in kids)
        n = self.tab.get(key)
        if n is None:
            n = Node()
            n.v, n.k = v, kids
            self.nn += 1
            n.id = self.nn
            self.tab[key] = n
            if self.nn > 3000000:
                raise Unsupported("decision diagram too large")
        return n

    @staticmethod
    def key(x):
        return ("n", x.id) if isinstance(x, Node) else (type(x).__name__, x)

    @staticmethod
    def top(*xs):
        b = None
        for x in xs:
            if isinstance(x, Node) and (b is None or x.v < b):
                b = x.v
        return b

    @staticmethod
    def cof(x, v, i):
        return x.k[i] if isinstance(x, Node) and x.v == v else x

    def apply(self, f, *xs, tag=None):
        """leafwise f; f may itself return gated values"""
        if not any(isinstance(x, Node) for x in xs):
            return f(*xs)
        memo = {}

        def rec(xs):
            v = self.top(*xs)
            if v is None:
                return f(*xs)
            k = tuple(self.key(x) for x in xs)
            r = memo.get(k)
            if r is None:
                kids = [rec(tuple(self.cof(x, v, i) for x in xs)) for i in range(3)]
                r = self.mk2(v, kids)
                memo[k] = r
            return r
        return rec(tuple(xs))

    def mk2(self, v, kids):
        """mk allowing children whose top variable is not below v (re-ordering)"""
        t = self.top(*kids)
        if t is None or t > v:
            return self.mk(v, tuple(kids))
        if kids[0] is kids[1] and kids[1] is kids[2]:
            return kids[0]
        return self.sel(v, kids)

    def sel(self, v, kids):
        """ordered diagram of: test v then kids, kids arbitrary"""
        memo = {}

        def rec(ks, depthv):
            # ks: 3 children
            t = self.top(*ks)
            if t is not None and t < v:
                key = ("s", t) + tuple(self.key(k) for k in ks)
                r = memo.get(key)
                if r is None:
                    r = self.mk(t, tuple(rec(tuple(self.cof(k, t, i) for k in ks), v) for i in range(3)))
                    memo[key] = r
                return r
            # at v
            ks = tuple(self.cof(ks[i], v, i) for i in range(3))
            return self.mk(v, ks)
        return rec(tuple(kids), v)

    # --- boolean
    def ite(self, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if a is b:
            return a
        memo = {}

        def rec(c, a, b):
            if c is True:
                return a
            if c is False:
                return b
            if a is b:
                return a
            if not isinstance(c, Node):
                if isinstance(c, Undef):
                    return Undef("branch on undef")
                raise Unsupported(f"non-boolean condition {c!r}")
            k = (self.key(c), self.key(a), self.key(b))
            r = memo.get(k)
            if r is None:
                v = self.top(c, a, b)
                r = self.mk(v, tuple(rec(self.cof(c, v, i), self.cof(a, v, i), self.cof(b, v, i)) for i in range(3)))
                memo[k] = r
            return r
        return rec(c, a, b)

    def AND(self, a, b):
        return self.ite(a, b, False)

    def OR(self, a, b):
        return self.ite(a, True, b)

    def NOT(self, a):
        return self.ite(a, False, True)

    # --- sign tests
    def sign3(self, r, neg, zero, pos):
        """gated: by sign of rational r (leaf)"""
        if r.is_const:
            c = r.const
            return neg if c < 0 else pos if c > 0 else zero
        s, p = primitive(r.n)
        flip = s < 0
        kids = [neg, zero, pos]
        if flip:
            kids = kids[::-1]
        if self.oracle and r.d == P1:
            k = self.oracle(p)
            if isinstance(k, frozenset):
                # signs that the assumptions leave open: the impossible outcome takes the value of a possible neighbour
                if len(k) == 1:
                    return kids[next(iter(k)) + 1]
                if -1 not in k:
                    kids[0] = kids[1]
                elif 1 not in k:
                    kids[2] = kids[1]
                elif 0 not in k:
                    kids[1] = kids[2]
            elif k is not None:
                return kids[k + 1]
        if r.d == P1:
            fs = self.factorise(p)
            if fs:
                return self.sign_prod(fs, *kids)
            ab = sqrt_split(p)
            if ab:
                return self.sign_sqrt(*ab, *kids)
        v = self.var(p)
        if r.d == P1:
            return self.sel(v, kids)
        sd, pd = primitive(r.d)
        if sd < 0:
            kids = kids[::-1]
        up = self.sel(v, kids)
        dn = self.sel(v, kids[::-1])
        # x/0 is excluded by assumption (recorded in .nonzero and pruned in diff)
        self.nonzero.add(pd)
        return self.sel(self.var(pd), [dn, up, up])

    @staticmethod
    def factorise(p):
        """[(factor, odd?)] with sign(p) = product of the factors' signs, or None"""
        it = iter(p.t)
        g = dict(next(it))
        for m in it:
            dm = dict(m)
            for v in list(g):
                e = min(g[v], dm.get(v, 0))
                if e:
                    g[v] = e
                else:
                    del g[v]
            if not g:
                break
        if g:
            rest = Poly({tuple((v, e - g.get(v, 0)) for v, e in m if e - g.get(v, 0)): c for m, c in p.t.items()})
            if rest.is_const and len(g) == 1 and list(g.values()) == [1]:
                return None
            fs = [(pvar(v), e % 2) for v, e in sorted(g.items(), key=lambda x: _vkey(x[0]))]
            return fs + ([(rest, 1)] if not rest.is_const or rest.const != 1 else [])
        ab = _factors.get(p)
        if ab is None:
            return None
        a, b, flip = ab
        vp = p.vars()
        if any(_is_sqrt(v) and v not in vp for v in a.vars() | b.vars()):
            return None
        fs = [(a, 0)] if a == b else [(a, 1), (b, 1)]
        return fs + ([(pconst(-1), 1)] if flip else [])

    def sign_prod(self, fs, neg, zero, pos):
        if not fs:
            return pos
        (f, odd), rest = fs[0], fs[1:]
        up = self.sign_prod(rest, neg, zero, pos)
        dn = self.sign_prod(rest, pos, zero, neg) if odd else up
        return self.sign3(Rat(f), dn, zero, up)

    def sign_sqrt(self, A, B, q, neg, zero, pos):
        """sign of A + B*sqrt(q) expressed by signs of A, B, q and A^2 - B^2 q only"""
        T = padd(pmul(A, A), pmul(pmul(B, B), q), -1)
        sa = self.sign3(Rat(A), neg, zero, pos)
        t_apos = self.sign3(Rat(T), neg, zero, pos)       # A > 0, B sqrt(q) < 0
        t_aneg = self.sign3(Rat(T), pos, zero, neg)       # A < 0, B sqrt(q) > 0
        bpos = self.sign3(Rat(A), t_aneg, pos, pos)
        bneg = self.sign3(Rat(A), neg, neg, t_apos)
        b = self.sign3(Rat(B), bneg, sa, bpos)
        return self.sign3(Rat(q), sa, sa, b)

    def cmp(self, pred, a, b):
        tbl = {"<": (True, False, False), "<=": (True, True, False), "==": (False, True, False),
               "!=": (True, False, True), ">": (False, False, True), ">=": (False, True, True)}[pred]
        def f(x, y):
            if isinstance(x, Undef) or isinstance(y, Undef):
                return Undef("cmp undef")
            if isinstance(x, Ptr) or isinstance(y, Ptr):
                if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj:
                    return self.sign3(radd(x.off, y.off, -1), *tbl)
                if pred in ("==", "!="):
                    xn = isinstance(x, Ptr) and x.obj is None
                    return pred == "!="
                raise Unsupported("pointer comparison")
            if isinstance(x, bool) or isinstance(y, bool):
                x = rc(int(x)) if isinstance(x, bool) else x
                y = rc(int(y)) if isinstance(y, bool) else y
            return self.sign3(radd(x, y, -1), *tbl)
        return self.apply(f, a, b)

    def bin(self, f, a, b):
        def g(x, y):
            if isinstance(x, Undef):
                return x
            if isinstance(y, Undef):
                return y
            if isinstance(x, bool):
                x = rc(int(x))
            if isinstance(y, bool):
                y = rc(int(y))
            return f(x, y)
        return self.apply(g, a, b)

    def un(self, f, a):
        return self.apply(lambda x: x if isinstance(x, Undef) else f(x), a)

    # --- equality
    def diff(self, a, b, care=True):
        """None if equal wherever care holds; else (path, la, lb).
        A leaf disagreement is kept only if its gate conditions are consistent in the
        linear-relations (polyhedral) abstraction and the leaves differ modulo the gate's equalities."""
        clean = set()

        def leaf(a, b, path):
            if isinstance(a, Undef) or isinstance(b, Undef):
                return self.consistent(path)
            if isinstance(a, Rat) and isinstance(b, Rat):
                if req(a, b):
                    return False
                d = padd(pmul(a.n, b.d), pmul(b.n, a.d), -1)
                return self.consistent(path, d)
            if type(a) is type(b) and a == b:
                return False
            return self.consistent(path)

        def rec(a, b, c, path):
            """returns (found, any_leaf_mismatch)"""
            if c is False or (a is b and not isinstance(a, Undef)):
                return None, False
            v = self.top(a, b, c)
            if v is None:
                if isinstance(a, Rat) and isinstance(b, Rat) and req(a, b):
                    return None, False
                if not isinstance(a, Undef) and type(a) is type(b) and a == b:
                    return None, False
                return ((list(path), a, b) if leaf(a, b, path) else None), True
            k = (self.key(a), self.key(b), self.key(c))
            if k in clean:
                return None, False
            any_ = False
            for i in range(3):
                if i == 1 and self.vars[v] in self.nonzero:
                    continue
                path.append((self.vars[v], "<=>"[i]))
                if self.ints and len(path) > 1 and not self.consistent(path):
                    path.pop()
                    any_ = True     # the memo below must not depend on this path
                    continue
                r, m = rec(self.cof(a, v, i), self.cof(b, v, i), self.cof(c, v, i), path)
                path.pop()
                any_ = any_ or m
                if r:
                    return r, True
            if not any_:
                clean.add(k)
            return None, any_
        return rec(a, b, care, [])[0]

    def consistent(self, path, d=None):
        """False if the gate conditions are contradictory in the linear abstraction (monomials as
        independent coordinates), or if d vanishes modulo the gate's equalities"""
        eqs = [p for p, s in path if s == "="]
        red = Reducer(eqs)
        if red.bad:
            return False
        if d is not None and not red(d).t:
            return False
        cons = []
        for p, s in path:
            if s == "=":
                continue
            q = red(p)
            if q.is_const:
                c = q.const
                if (s == "<" and not c < 0) or (s == ">" and not c > 0):
                    return False
                continue
            cons.append(q if s == ">" else pscale(q, -1))
        if self.ints:
            # integer quantities: q > 0 with integer coefficients means q - 1 >= 0
            rows = []
            for q in cons:
                if all(self.ints(v) for m in q.t for v, _ in m):
                    k = 1
                    for c in q.t.values():
                        k = k * Fraction(c).denominator // gcd(k, Fraction(c).denominator)
                    g = 0
                    for m, c in q.t.items():
                        if m != ():
                            g = gcd(g, int(Fraction(c) * k))
                    f = Fraction(k, g or 1)
                    t = {m: Fraction(c) * f for m, c in q.t.items()}
                    c0 = t.pop((), Fraction(0))
                    # sum > -c0  with an integer sum:  sum >= floor(-c0) + 1
                    t[()] = -Fraction(floor(-c0) + 1)
                    rows.append((t, False))
                else:
                    rows.append(({m: Fraction(c) for m, c in q.t.items()}, True))
            return not fm_empty2(rows)
        return not fm_empty(cons)

    def leaves(self, x):
        out, seen, st = [], set(), [x]
        while st:
            y = st.pop()
            if isinstance(y, Node):
                if y.id not in seen:
                    seen.add(y.id)
                    st += y.k
            else:
                out.append(y)
        return out


class Undef:
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __eq__(self, o):
        return isinstance(o, Undef)

    def __hash__(self):
        return 7

    def __repr__(self):
        return f"undef<{self.why}>"


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off

    def __hash__(self):
        return hash((self.obj, self.off))

    def __repr__(self):
        return f"&{self.obj}+{self.off}"


class Reducer:
    """normal form modulo equalities that are linear in some variable with constant coefficient
    (triangular substitution); other equalities are applied by exact division only"""

    def __init__(self, eqs):
        self.sub = []
        self.rest = []
        self.bad = False        # the equalities contradict each other
        for e in eqs:
            e = self(e)
            if not e.t:
                continue
            if e.is_const:
                self.bad = True
                continue
            best = None
            for m, c in e.t.items():
                if len(m) == 1 and m[0][1] == 1:
                    v = m[0][0]
                    if sum(1 for mm in e.t for w, _ in mm if w == v) == 1:
                        best = (v, c)
                        break
            if best is None:
                self.rest.append(e)
                continue
            v, c = best
            r = Poly({m: norm_c(-Fraction(k) / Fraction(c)) for m, k in e.t.items() if m != ((v, 1),)})
            self.sub = [(u, self.apply(q, v, r)) for u, q in self.sub]
            self.rest = [self.apply(q, v, r) for q in self.rest]
            self.sub.append((v, r))

    @staticmethod
    def apply(p, v, r):
        if not any(w == v for m in p.t for w, _ in m):
            return p
        out = P0
        for m, c in p.t.items():
            acc = pconst(c)
            for w, e in m:
                for _ in range(e):
                    acc = pmul(acc, r if w == v else pvar(w))
            out = padd(out, acc)
        return out

    def __call__(self, p):
        for v, r in self.sub:
            p = self.apply(p, v, r)
        for e in self.rest:
            if e.t and not e.is_const:
                q = pdivexact(p, e)
                if q is not None:
                    return P0
        return p


def fm_empty2(rows, limit=400):
    """linear constraints (row, strict): row > 0 or row >= 0; True if provably contradictory"""
    while True:
        mons = {}
        uniq = {}
        for r, st in rows:
            if all(m == () for m in r):
                c = r.get((), 0)
                if c < 0 or (c == 0 and st):
                    return True
                continue
            uniq[(frozenset(r.items()), st)] = (r, st)
            for m in r:
                if m != ():
                    mons.setdefault(m, [0, 0])[0 if r[m] > 0 else 1] += 1
        rows = list(uniq.values())
        if not mons:
            return False
        m = min(mons, key=lambda k: mons[k][0] * mons[k][1])
        pos = [r for r in rows if r[0].get(m, 0) > 0]
        neg = [r for r in rows if r[0].get(m, 0) < 0]
        oth = [r for r in rows if m not in r[0]]
        for a, sa in pos:
            for b, sb in neg:
                ka, kb = 1 / a[m], -1 / b[m]
                n = {}
                for k in set(a) | set(b):
                    x = a.get(k, 0) * ka + b.get(k, 0) * kb
                    if x != 0 and k != m:
                        n[k] = x
                oth.append((n, sa or sb))
        if len(oth) > limit:
            return False
        rows = oth


def fm_empty(cons, limit=400):
    """strict linear constraints q > 0 over monomials: True if provably contradictory (Fourier-Motzkin)"""
    rows = []
    for q in cons:
        row = {m: Fraction(c) for m, c in q.t.items()}
        rows.append(row)
    while True:
        mons = {}
        for r in rows:
            for m in r:
                if m != ():
                    mons.setdefault(m, [0, 0])[0 if r[m] > 0 else 1] += 1
        for r in rows:
            if all(m == () for m in r) and r.get((), 0) <= 0:
                return True
        if not mons:
            return False
        m = min(mons, key=lambda k: mons[k][0] * mons[k][1])
        pos = [r for r in rows if r.get(m, 0) > 0]
        neg = [r for r in rows if r.get(m, 0) < 0]
        oth = [r for r in rows if m not in r]
        for a in pos:
            for b in neg:
                ka, kb = 1 / a[m], -1 / b[m]
                n = {}
                for k in set(a) | set(b):
                    x = a.get(k, 0) * ka + b.get(k, 0) * kb
                    if x != 0 and k != m:
                        n[k] = x
                oth.append(n)
        if len(oth) > limit:
            return False
        rows = oth
