"""Linear integer facts: a fixed set of inequalities over named integer quantities, used to resolve comparisons and integer quotients.

The facts are assumptions of an entry (ranges of ids, order of vertices).  A comparison is resolved only when the facts
imply it (Fourier-Motzkin over the monomials, with integer tightening); a quotient only when the facts bound the remainder."""
import ast
from math import gcd
from fractions import Fraction
from gv import Poly, Rat, P1, P0, padd, pmul, pscale, pconst, pvar, rc, fm_empty2, Reducer


def poly(s):
    """polynomial from text"""
    def g(n):
        if isinstance(n, ast.Expression):
            return g(n.body)
        if isinstance(n, ast.BinOp):
            a, b = g(n.left), g(n.right)
            return padd(a, b) if isinstance(n.op, ast.Add) else padd(a, b, -1) if isinstance(n.op, ast.Sub) else pmul(a, b)
        if isinstance(n, ast.UnaryOp):
            return pscale(g(n.operand), -1)
        if isinstance(n, ast.Constant):
            return pconst(n.value)
        return pvar(n.id)
    return g(ast.parse(s, mode="eval"))


class Facts:
    def __init__(self, ge, nonneg=(), eqs=()):
        """ge: polynomials (or text) that are >= 0; nonneg: variables that are >= 0 (their products are, too); eqs: polynomials that vanish"""
        self.nn = set(nonneg)
        self.red = Reducer([poly(e) if isinstance(e, str) else e for e in eqs])
        self.ge = [self.red(poly(g) if isinstance(g, str) else g) for g in ge] + [pvar(v) for v in nonneg]
        self.memo = {}
        self.used = 0

    def implied(self, p):
        """do the facts imply p > 0 (p with integer coefficients)?"""
        k = ("gt", p)
        if k not in self.memo:
            rows = [(self.row(g), False) for g in self.ge]
            n = pscale(p, -1)
            rows.append((self.row(n), False))
            ms = {m for r, _ in rows for m in r if len(m) > 1 or (m and m[0][1] > 1)}
            for m in ms:
                if all(v in self.nn or e % 2 == 0 for v, e in m):
                    rows.append(({m: Fraction(1)}, False))
            self.memo[k] = fm_empty2(rows)
        return self.memo[k]

    @staticmethod
    def row(p):
        return {m: Fraction(c) for m, c in p.t.items()}

    def sign(self, p):
        p = self.red(p)
        if p.is_const:
            c = p.const
            return 0 if c == 0 else 1 if c > 0 else -1
        if any(Fraction(c).denominator != 1 for c in p.t.values()):
            return None
        if not all(isinstance(v, str) for m in p.t for v, _ in m):
            return None
        if self.implied(p):
            return 1
        if self.implied(pscale(p, -1)):
            return -1
        # equal: p >= 0 and p <= 0, over the integers: p + 1 > 0 and 1 - p > 0
        if self.implied(padd(p, pconst(1))) and self.implied(padd(pconst(1), p, -1)):
            return 0
        return None

    def oracle(self, p):
        s = self.sign(p)
        if s is not None:
            return s
        p = self.red(p)
        if any(Fraction(c).denominator != 1 for c in p.t.values()) or not all(isinstance(v, str) for m in p.t for v, _ in m):
            return None
        k = {-1, 0, 1}
        if self.implied(padd(p, pconst(1))):
            k.discard(-1)
        if self.implied(padd(pconst(1), p, -1)):
            k.discard(1)
        return frozenset(k) if len(k) < 3 else None

    def nonneg(self, p):
        p = self.red(p)
        if p.is_const:
            return p.const >= 0
        return self.implied(padd(p, pconst(1)))

    def quot(self, a, b):
        """(q, r) with a = q * b + r, 0 <= r < b, or None"""
        a, b = self.red(a), self.red(b)
        k = 1
        for c in list(a.t.values()) + list(b.t.values()):
            c = Fraction(c)
            k = k * c.denominator // gcd(k, c.denominator)
        if k != 1:
            a, b = pscale(a, k), pscale(b, k)
            qr = self.quot(a, b)
            return qr and (qr[0], pscale(qr[1], Fraction(1, k)))
        if not all(isinstance(v, str) for p in (a, b) for m in p.t for v, _ in m):
            return None
        if b.is_const and b.const <= 0:
            return None
        q = P0
        if not b.is_const:
            pm, pc = max(b.t.items(), key=lambda kv: (sum(e for _, e in kv[0]), str(kv[0])))
            pd = dict(pm)
            for m, c in a.t.items():
                d = dict(m)
                if sum(d.values()) > sum(pd.values()) and all(d.get(v, 0) >= e for v, e in pd.items()):
                    u = tuple((v, e - pd.get(v, 0)) for v, e in m if e - pd.get(v, 0))
                    k = Fraction(c) / Fraction(pc)
                    if k.denominator != 1:
                        return None
                    q = padd(q, Poly({u: int(k)}))
        else:
            k = int(b.const)
            for m, c in a.t.items():
                if m and Fraction(c).denominator == 1 and int(c) // k:
                    q = padd(q, Poly({m: int(c) // k}))
        r0 = padd(a, pmul(q, b), -1)
        for j in (0, 1, -1, 2, 3, 4, -2, 5, 6, 7, 8):
            r = padd(r0, pscale(b, -j)) if j else r0
            if self.nonneg(r) and self.nonneg(padd(padd(b, r, -1), pconst(-1))):
                return (padd(q, pconst(j)) if j else q), r
        return None
