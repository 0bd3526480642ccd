"""Kernel entries for the algebraic properties (value numbering against the mathematical definition)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
from spec import *

H = "include/ftk/numeric/"


def E(name, sig, body, args, check, where, ret="void", oracle=None):
    return Entry(name, f'extern "C" {ret} {name}({sig}) {{ {body} }}', args, check, H + where, oracle)


# ----------------------------------------------------------------------------- N01
def n01():
    pre = "#include <ftk/numeric/det.hh>\n#include <ftk/numeric/matrix_inverse.hh>\n#include <ftk/numeric/adjugate.hh>\n#include <ftk/numeric/trace.hh>\n"
    L = []

    def dchk(n):
        return lambda x: x.eq("det", x.ret, det(x.inp("m", n, n)))
    for n in (2, 3, 4):
        L.append(E(f"w_det{n}", f"const double m[{n}][{n}]", f"return ftk::det{n}(m);", ["m"], dchk(n), "det.hh:det%d" % n, "double"))
    L.append(E("w_det2s", "const double m[4]", "return ftk::det2(m[0], m[1], m[2], m[3]);", ["m"],
               lambda x: x.eq("det", x.ret, det(x.inp("m", 2, 2))), "det.hh:det2(scalars)", "double"))

    def invchk(n, flat=False):
        def f(x):
            m, v = x.inp("m", n, n), x.out("inv", n, n)
            d = det(m)
            x.eq("returned determinant", x.ret, d)
            x.eq("M * inv", matmul(m, v), [[x.c(e) for e in r] for r in ident(n)])
            x.eq("inv * M", matmul(v, m), [[x.c(e) for e in r] for r in ident(n)])
        return f
    for n in (2, 3):
        L.append(E(f"w_inv{n}", f"const double m[{n}][{n}], double inv[{n}][{n}]", f"return ftk::matrix_inverse{n}x{n}(m, inv);", ["m", "inv"], invchk(n),
                   f"matrix_inverse.hh:matrix_inverse{n}x{n}", "double"))
    L.append(E("w_inv4", "const double m[16], double inv[16]", "return ftk::matrix_inverse4(m, inv);", ["m", "inv"], invchk(4), "matrix_inverse.hh:matrix_inverse4", "double"))

    def adjchk(n):
        def f(x):
            m, v = x.inp("m", n, n), x.out("a", n, n)
            d = det(m)
            x.eq("M * adj", matmul(m, v), [[(d if i == j else x.c(0)) for j in range(n)] for i in range(n)])
            x.eq("adj * M", matmul(v, m), [[(d if i == j else x.c(0)) for j in range(n)] for i in range(n)])
        return f
    for n in (2, 3):
        L.append(E(f"w_adj{n}", f"const double m[{n}][{n}], double a[{n}][{n}]", f"ftk::adjugate{n}(m, a);", ["m", "a"], adjchk(n), f"adjugate.hh:adjugate{n}"))
    for n in (2, 3):
        L.append(E(f"w_tr{n}", f"double m[{n}][{n}]", f"return ftk::trace{n}(m);", ["m"], (lambda n: lambda x: x.eq("trace", x.ret, sum_(x.inp("m", n, n)[i][i] for i in range(n))))(n), f"trace.hh:trace{n}", "double"))
    L.append(E("w_trn", "double m[4][4]", "return ftk::trace<double,4>(m);", ["m"], lambda x: x.eq("trace", x.ret, sum_(x.inp("m", 4, 4)[i][i] for i in range(4))), "trace.hh:trace", "double"))
    return pre, L


# ----------------------------------------------------------------------------- N02
def n02():
    pre = ("#include <limits>\n#include <ftk/numeric/transpose.hh>\n#include <ftk/numeric/matrix_multiplication.hh>\n#include <ftk/numeric/linear_solver.hh>\n"
           "#include <ftk/numeric/linear_solver1.hh>\n")
    L = []

    def lin(n):
        def f(x):
            A, b, s = x.inp("A", n, n), x.inp("b", n), x.out("x", n)
            x.eq("returned determinant", x.ret, det(A))
            x.eq("A x = b", matvec(A, s), b)
        return f
    for n in (2, 3):
        L.append(E(f"w_lin{n}", f"const double A[{n}][{n}], const double b[{n}], double x[{n}]", f"return ftk::solve_linear{n}x{n}(A, b, x);", ["A", "b", "x"], lin(n),
                   f"linear_solver.hh:solve_linear{n}x{n}", "double"))

    def lsq(m, n, k=None):
        def f(x):
            A = x.inp("A", m, n)
            AT = tr(A)
            if k is None:
                b, s = x.inp("b", m), x.out("x", n)
                res = [a - c for a, c in zip(matvec(A, s), b)]
                x.eq("A^T (A x - b) = 0", matvec(AT, res), [x.c(0)] * n)
            else:
                B, s = x.inp("b", m, k), x.out("x", n, k)
                R = matmul(A, s)
                res = [[R[i][j] - B[i][j] for j in range(k)] for i in range(m)]
                x.eq("A^T (A X - B) = 0", matmul(AT, res), [[x.c(0)] * k for _ in range(n)])
        return f
    L.append(E("w_ls32", "const double A[3][2], const double b[3], double x[2]", "ftk::solve_least_square3x2(A, b, x);", ["A", "b", "x"], lsq(3, 2), "linear_solver.hh:solve_least_square3x2"))
    L.append(E("w_ls322", "const double A[3][2], const double b[3][2], double x[2][2]", "ftk::solve_least_square3x2_2(A, b, x);", ["A", "b", "x"], lsq(3, 2, 2), "linear_solver.hh:solve_least_square3x2_2"))

    # 4x3: the normal equations are verified through the factor structure  x = inv(A^T A) A^T b
    def ls43(k):
        def f(x):
            A = x.inp("A", 4, 3)
            AT = tr(A)
            G = matmul(AT, A)
            d = det(G)

            def cof(i, j):
                mi = [[G[r][c] for c in range(3) if c != j] for r in range(3) if r != i]
                v = det(mi)
                return v if (i + j) % 2 == 0 else 0 - v
            adj = [[cof(j, i) for j in range(3)] for i in range(3)]
            P = matmul(adj, AT)
            if k is None:
                b, s = x.inp("b", 4), x.out("x", 3)
                w = matvec(P, b)
                x.eq("det(A^T A) x = adj(A^T A) A^T b", [s[i] * d for i in range(3)], w)
            else:
                B, s = x.inp("b", 4, 3), x.out("x", 3, 3)
                w = matmul(P, B)
                x.eq("det(A^T A) X = adj(A^T A) A^T B", [[s[i][j] * d for j in range(3)] for i in range(3)], w)
        return f
    L.append(E("w_ls433", "const double A[4][3], const double b[4][3], double x[3][3]", "ftk::solve_least_square4x3_3(A, b, x);", ["A", "b", "x"], ls43(3), "linear_solver.hh:solve_least_square4x3_3"))

    def ls1(n):
        def f(x):
            a, b, s = x.inp("a", n), x.inp("b", n), x.out("x", 1)[0]
            x.zero("a . (a x - b) = 0", sum_(a[i] * (a[i] * s - b[i]) for i in range(n)))
        return f
    for n in (2, 3):
        L.append(E(f"w_ls{n}1", f"const double a[{n}], const double b[{n}], double *x", f"ftk::solve_least_square{n}x1(a, b, *x);", ["a", "b", "x"], ls1(n), f"linear_solver1.hh:solve_least_square{n}x1"))
    return pre, L


# ----------------------------------------------------------------------------- N03
def n03():
    pre = "#include <limits>\n#include <cmath>\n#include <complex>\n#include <ftk/config.hh>\n#define complex_sqrt complex_sqrt_lib\n#include <ftk/numeric/sqrt.hh>\n#undef complex_sqrt\n/* principal square root of a negative real, the only way the solver calls it */\nnamespace ftk { template <typename T> std::complex<T> complex_sqrt(const std::complex<T> z) { return std::complex<T>(0.0, std::sqrt(-z.real())); } }\n#include <ftk/numeric/characteristic_polynomial.hh>\n#include <ftk/numeric/quadratic_solver.hh>\n#include <ftk/numeric/cubic_solver.hh>\n#include <ftk/numeric/eigen_solver2.hh>\n"
    L = []

    def charpoly(M):       # M: entries are polynomials in t as coefficient lists
        n = len(M)

        def pm(a, b):
            r = [None] * (len(a) + len(b) - 1)
            for i, u in enumerate(a):
                for j, v in enumerate(b):
                    p = u * v
                    r[i + j] = p if r[i + j] is None else r[i + j] + p
            return r

        def pa(a, b, k):
            r = []
            for i in range(max(len(a), len(b))):
                u = a[i] if i < len(a) else None
                v = b[i] if i < len(b) else None
                if v is not None and k < 0:
                    v = 0 - v
                r.append(v if u is None else u if v is None else u + v)
            return r

        def pd(M):
            if len(M) == 1:
                return M[0][0]
            acc = None
            for j in range(len(M)):
                mi = [[M[i][k] for k in range(len(M)) if k != j] for i in range(1, len(M))]
                t = pm(M[0][j], pd(mi))
                acc = t if acc is None and j % 2 == 0 else pa(acc, t, -1 if j % 2 else 1)
            return acc
        return pd(M)

    def cp1(n):
        def f(x):
            A, P = x.inp("A", n, n), x.out("P", n + 1)
            M = [[[0 - A[i][j], x.c(1)] if i == j else [0 - A[i][j]] for j in range(n)] for i in range(n)]
            C = charpoly(M)                                  # det(t I - A)
            x.eq("P = det(tI - A)", P, C)
        return f

    def cp2(n):
        def f(x):
            A, B, P = x.inp("A", n, n), x.inp("B", n, n), x.out("P", n + 1)
            M = [[[A[i][j], 0 - B[i][j]] for j in range(n)] for i in range(n)]
            C = charpoly(M)                                  # det(A - t B)
            x.eq("P = det(A - tB)", P, C)
        return f
    for n in (2, 3):
        L.append(E(f"w_cp{n}", f"const double A[{n}][{n}], double P[{n+1}]", f"ftk::characteristic_polynomial_{n}x{n}(A, P);", ["A", "P"], cp1(n), f"characteristic_polynomial.hh:characteristic_polynomial_{n}x{n}"))
        L.append(E(f"w_gcp{n}", f"const double A[{n}][{n}], const double B[{n}][{n}], double P[{n+1}]", f"ftk::characteristic_polynomial_{n}x{n}(A, B, P);", ["A", "B", "P"], cp2(n),
                   f"characteristic_polynomial.hh:characteristic_polynomial_{n}x{n}(A,B)"))
    L.append(E("w_gcp2s", "const double A[2][2], const double B[2][2], double P[3]",
               "ftk::characteristic_polynomial_2x2(A[0][0],A[0][1],A[1][0],A[1][1],B[0][0],B[0][1],B[1][0],B[1][1],P);", ["A", "B", "P"], cp2(2),
               "characteristic_polynomial.hh:characteristic_polynomial_2x2(scalars)"))

    # roots
    def lin1(x):
        P, s = x.inp("P", 2), x.out("x", 1)[0]
        big = P[1].abs() >= x.var("eps")
        small = ~big
        x.eq("number of roots", x.ret, big.ite(1, 0))
        x.zero("P1 x + P0 = 0 at the reported root", big.ite(P[1] * s + P[0], x.c(0)))
    L.append(E("w_lin1", "const double P[2], double x[1], double eps", "return ftk::solve_linear_real1(P, x, eps);", ["P", "x", "=eps"], lin1, "linear_solver1.hh:solve_linear_real1", "int"))

    def polyz(x, P, s):
        """residual of P at s with sqrt(delta)^2 reduced"""
        r = None
        for c in reversed(P):
            r = c if r is None else r * s + c
        return r

    def quad(x):
        P, s = x.inp("P", 3), x.out("x", 2)
        eps = x.var("eps")
        p2, p0 = P[2].abs() <= eps, P[0].abs() <= eps
        delta = P[1] * P[1] - 4 * P[2] * P[0]
        gen = (~p2) & (~p0)
        care2 = gen & (delta > 0)
        care1 = gen & delta.iszero()
        none = gen & (delta < 0)
        epos = ~(eps < 0)
        x.eq("two roots when discriminant > 0", x.ret, 2, care2)
        x.eq("one root when discriminant = 0", x.ret, 1, care1)
        x.eq("no root when discriminant < 0", x.ret, 0, none)
        q = delta.sqrt()
        # the two reported roots are the two conjugate roots: sum and product (Vieta)
        x.eq("x0 + x1 = -P1/P2", s[0] + s[1], (0 - P[1]) / P[2], care2)
        # product contains sqrt(delta)^2
        red = lambda v: S(x.D, x.D.un(lambda r: sqred(r, delta), v.v))
        x.eq("x0 x1 = P0/P2", red(s[0] * s[1]), P[0] / P[2], care2)
        x.eq("double root", s[0], (0 - P[1]) / (2 * P[2]), care1)

    def sqred(r, delta):
        """replace sqrt(u)^2 by u in a rational function"""
        def poly(p):
            out = P0
            for m, c in p.t.items():
                acc = pconst(c)
                for v, e in m:
                    if isinstance(v, UF) and v.name == "sqrt" and e >= 2 and v.args[0].d == P1:
                        for _ in range(e // 2):
                            acc = pmul(acc, v.args[0].n)
                        if e % 2:
                            acc = pmul(acc, pvar(v))
                    else:
                        for _ in range(e):
                            acc = pmul(acc, pvar(v))
                out = padd(out, acc)
            return out
        return mkrat(poly(r.n), poly(r.d))
    L.append(E("w_quad", "const double P[3], double x[2], double eps", "return ftk::solve_quadratic_real(P, x, eps);", ["P", "x", "=eps"], quad, "quadratic_solver.hh:solve_quadratic_real", "int"))

    def quadlow(x):
        # vanishing constant term, leading and linear terms non-negligible: roots {-P1/P2, 0}
        P, s = x.inp("P", 3), x.out("x", 2)
        eps = x.c(Fraction(1, 2**52))
        care = (P[2].abs() > eps) & P[0].iszero() & (P[1].abs() > eps)
        x.eq("two roots", x.ret, 2, care)
        x.eq("sum", s[0] + s[1], (0 - P[1]) / P[2], care)
        x.zero("product", s[0] * s[1], care)
        care = P[2].iszero() & (P[1].abs() > eps)
        x.eq("degenerates to the linear equation", x.ret, 1, care)
        x.zero("linear root", P[1] * s[0] + P[0], care)
    L.append(E("w_quadl", "const double P[3], double x[2], double eps", "return ftk::solve_quadratic_real(P, x);", ["P", "x", "=eps"], quadlow, "quadratic_solver.hh:solve_quadratic_real", "int"))

    def quadc(x):
        P = x.inp("P", 3)
        z = x.out("x", 4)
        delta = P[1] * P[1] - 4 * P[2] * P[0]
        red = lambda v: S(x.D, x.D.un(lambda r: sqred(r, delta), v.v))
        x.eq("returned discriminant", x.ret, delta)
        lead = ~P[2].iszero()
        re_s, im_s = z[0] + z[2], z[1] + z[3]
        x.eq("Re(x0+x1) = -P1/P2", re_s, (0 - P[1]) / P[2], lead)
        x.zero("Im(x0+x1) = 0", im_s, lead)
        x.eq("Re(x0 x1) = P0/P2", red(z[0] * z[2] - z[1] * z[3]), P[0] / P[2], lead)
        x.zero("Im(x0 x1) = 0", red(z[0] * z[3] + z[1] * z[2]), lead)
    L.append(E("w_quadc", "const double P[3], double x[4]", "std::complex<double> z[2]; double d = ftk::solve_quadratic(P, z); x[0]=z[0].real(); x[1]=z[0].imag(); x[2]=z[1].real(); x[3]=z[1].imag(); return d;",
               ["P", "x"], quadc, "quadratic_solver.hh:solve_quadratic", "double"))

    def sym2(x):
        m, e = x.inp("m", 3), x.out("e", 2)
        delta = (m[0] + m[2]) * (m[0] + m[2]) - 4 * (m[0] * m[2] - m[1] * m[1])
        red = lambda v: S(x.D, x.D.un(lambda r: sqred(r, delta), v.v))
        care = ~(delta < 0)
        x.eq("sum of eigenvalues = trace", e[0] + e[1], m[0] + m[2], care)
        x.eq("product of eigenvalues = determinant", red(e[0] * e[1]), m[0] * m[2] - m[1] * m[1], care)
        x.eq("ordered by magnitude", e[0].abs() < e[1].abs(), False, care)
    L.append(E("w_sym2", "const double m[3], double e[2]", "ftk::solve_eigenvalues_symmetric2x2(m[0], m[1], m[2], e);", ["m", "e"], sym2, "eigen_solver2.hh:solve_eigenvalues_symmetric2x2"))

    def disc3(x):
        d, c, b, a = x.inp("P", 4)
        x.eq("discriminant", x.ret, 18 * a * b * c * d - 4 * b ** 3 * d + b ** 2 * c ** 2 - 4 * a * c ** 3 - 27 * a ** 2 * d ** 2)
    L.append(E("w_disc3", "double P[4]", "return ftk::cubic_discriminant(P);", ["P"], disc3, "cubic_solver.hh:cubic_discriminant", "double"))
    return pre, L


# ----------------------------------------------------------------------------- N04
def n04():
    pre = ("#include <limits>\n#include <algorithm>\n#include <cmath>\n#include <ftk/numeric/transpose.hh>\n#include <ftk/numeric/matrix_multiplication.hh>\n#include <ftk/numeric/linear_solver1.hh>\n"
           "#include <ftk/numeric/linear_interpolation.hh>\n#include <ftk/numeric/bilinear_interpolation.hh>\n#include <ftk/numeric/trilinear_interpolation.hh>\n"
           "#include <ftk/numeric/inverse_linear_interpolation_solver.hh>\n#include <ftk/numeric/clamp.hh>\n")
    L = []

    def lerp_scalar(n):
        return lambda x: x.eq("sum mu_i v_i", x.ret, sum_(x.inp("v", n)[i] * x.inp("mu", n)[i] for i in range(n)))
    for s in (1, 2, 3):
        L.append(E(f"w_lerp_s{s}", f"const double v[{s+1}], const double mu[{s+1}]", f"return ftk::lerp_s{s}(v, mu);", ["v", "mu"], lerp_scalar(s + 1), f"linear_interpolation.hh:lerp_s{s}", "double"))

    def lerp_vec(n, *dims):
        def f(x):
            V, mu, v = x.inp("V", n, *dims), x.inp("mu", n), x.out("v", *dims)

            def rec(Vs):
                if isinstance(Vs[0], list):
                    return [rec([w[k] for w in Vs]) for k in range(len(Vs[0]))]
                return sum_(Vs[i] * mu[i] for i in range(n))
            x.eq("sum mu_i V_i", v, rec(V))
        return f
    for nm, n, dims in (("s1v2", 2, (2,)), ("s1v3", 2, (3,)), ("s1v4", 2, (4,)), ("s2v2", 3, (2,)), ("s2v3", 3, (3,)), ("s2v4", 3, (4,)), ("s3v3", 4, (3,)), ("s3v4", 4, (4,)),
                        ("s2m2x2", 3, (2, 2)), ("s3m3x3", 4, (3, 3)), ("s2m3x3", 3, (3, 3))):
        ds = "".join(f"[{d}]" for d in dims)
        L.append(E(f"w_lerp_{nm}", f"const double V[{n}]{ds}, const double mu[{n}], double v{ds}", f"ftk::lerp_{nm}(V, mu, v);", ["V", "mu", "v"], lerp_vec(n, *dims), f"linear_interpolation.hh:lerp_{nm}"))
    L.append(E("w_lerp_s2v", "const double V[3][5], const double mu[3], double v[5]", "ftk::lerp_s2v<double,5>(V, mu, v);", ["V", "mu", "v"], lerp_vec(3, 5), "linear_interpolation.hh:lerp_s2v"))

    def s1v2s(x):
        V, v, mu = x.inp("V", 2, 2), x.out("v", 2), x.var("mu")
        x.eq("mu V0 + (1-mu) V1", v, [mu * V[0][k] + (1 - mu) * V[1][k] for k in range(2)])
    L.append(E("w_lerp_s1v2s", "const double V[2][2], double mu, double v[2]", "ftk::lerp_s1v2(V, mu, v);", ["V", "=mu", "v"], s1v2s, "linear_interpolation.hh:lerp_s1v2(scalar mu)"))

    # bilinear: weights reproduce the four corners and are affine in each parameter
    def bil(x):
        V, a, b, v = x.inp("V", 4, 3), x.var("a"), x.var("b"), x.out("v", 3)
        x.eq("bilinear form", v, [(1 - a) * (1 - b) * V[0][k] + a * (1 - b) * V[1][k] + a * b * V[2][k] + (1 - a) * b * V[3][k] for k in range(3)])
    L.append(E("w_bil", "const double V[4][3], double a, double b, double v[3]", "ftk::bilinear_interpolation3(V, a, b, v);", ["V", "=a", "=b", "v"], bil, "bilinear_interpolation.hh:bilinear_interpolation3"))

    def bilf(x):       # component-major layout: V[4*k + corner]
        V, a, b, v = x.inp("V", 3, 4), x.var("a"), x.var("b"), x.out("v", 3)
        x.eq("bilinear form", v, [(1 - a) * (1 - b) * V[k][0] + a * (1 - b) * V[k][1] + a * b * V[k][2] + (1 - a) * b * V[k][3] for k in range(3)])
    L.append(E("w_bilf", "const double V[12], double a, double b, double v[3]", "ftk::bilinear_interpolation3(V, a, b, v);", ["V", "=a", "=b", "v"], bilf, "bilinear_interpolation.hh:bilinear_interpolation3(flat)"))

    for tag, flat in (("", False), ("f", True)):
        def bl(x, flat=flat):
            V, a, b, v = (tr(x.inp("V", 3, 4)) if flat else x.inp("V", 4, 3)), x.var("a"), x.var("b"), x.out("v", 3)
            x.eq("bilinear form", v, [(1 - a) * (1 - b) * V[0][k] + a * (1 - b) * V[1][k] + a * b * V[2][k] + (1 - a) * b * V[3][k] for k in range(3)])
        L.append(E("w_bloc" + tag, f"const double V{'[12]' if flat else '[4][3]'}, double a, double b, double v[3]", "ftk::bilinear_interpolation3_location(V, a, b, v);", ["V", "=a", "=b", "v"], bl,
                   "bilinear_interpolation.hh:bilinear_interpolation3_location" + ("(flat)" if flat else "")))

    def tri(x):
        V, a, b, c, v = x.inp("V", 8, 3), x.var("a"), x.var("b"), x.var("c"), x.out("v", 3)
        w = lambda t, bit: t if bit else 1 - t
        x.eq("trilinear form", v, [sum_(w(a, i >> 2 & 1) * w(b, i >> 1 & 1) * w(c, i & 1) * V[i][k] for i in range(8)) for k in range(3)])
    L.append(E("w_tri", "const double V[8][3], double a, double b, double c, double v[3]", "ftk::trilinear_interpolation3(V, a, b, c, v);", ["V", "=a", "=b", "=c", "v"], tri, "trilinear_interpolation.hh:trilinear_interpolation3"))

    # inverse
    def inside(x, mu, lo, hi, strict_hi):
        r = None
        for m in mu:
            c = (m >= lo) & ((m < hi) if strict_hi else (m <= hi))
            r = c if r is None else r & c
        return r

    def inv(n, d, strict, lsq=False, half=False):
        def f(x):
            V = x.inp("V", n, d) if d > 1 or n > 2 else [[v] for v in x.inp("V", 2)]
            mu = x.out("mu", n)
            x.eq("barycentric coordinates sum to one", sum_(mu), 1)
            if not lsq:
                x.eq("sum mu_i V_i = 0", [sum_(mu[i] * V[i][k] for i in range(n)) for k in range(d)], [x.c(0)] * d)
            else:
                r = [sum_(mu[i] * V[i][k] for i in range(n)) for k in range(d)]
                for j in range(n - 1):
                    x.zero(f"residual orthogonal to edge {j}", sum_(r[k] * (V[j][k] - V[n - 1][k]) for k in range(d)))
            if half:
                want = (mu[0] >= 0) & (mu[0] < 1)
                x.eq("accepts iff 0 <= mu < 1", x.ret, want)
            else:
                eps = x.var("eps")
                # acceptance: every coordinate inside [-eps, 1+eps]; boundary 1+eps itself may be open or closed
                cl = inside(x, mu, 0 - eps, 1 + eps, False)
                op = inside(x, mu, 0 - eps, 1 + eps, True)
                x.eq("accepts every interior point", x.ret, True, op)
                x.eq("rejects every exterior point", x.ret, False, ~cl)
        return f
    L.append(E("w_inv11", "const double V[2], double mu[2]", "return ftk::inverse_lerp_s1v1(V, mu);", ["V", "mu"], inv(2, 1, True, half=True), "inverse_linear_interpolation_solver.hh:inverse_lerp_s1v1", "bool"))
    L.append(E("w_inv22", "const double V[3][2], double mu[3], double eps", "return ftk::inverse_lerp_s2v2(V, mu, (double*)nullptr, eps);", ["V", "mu", "=eps"], inv(3, 2, False), "inverse_linear_interpolation_solver.hh:inverse_lerp_s2v2", "bool"))
    L.append(E("w_inv23", "const double V[3][3], double mu[3], double eps", "return ftk::inverse_lerp_s2v3(V, mu, (double*)nullptr, eps);", ["V", "mu", "=eps"], inv(3, 3, False, lsq=True), "inverse_linear_interpolation_solver.hh:inverse_lerp_s2v3", "bool"))
    L.append(E("w_inv33", "const double V[4][3], double mu[4], double eps", "return ftk::inverse_lerp_s3v3(V, mu, (double*)nullptr, eps);", ["V", "mu", "=eps"], inv(4, 3, True), "inverse_linear_interpolation_solver.hh:inverse_lerp_s3v3", "bool"))

    def inv12(x):
        V, mu = x.inp("V", 2, 2), x.out("mu", 1)[0]
        r = [mu * V[0][k] + (1 - mu) * V[1][k] for k in range(2)]
        x.zero("residual orthogonal to the edge", sum_(r[k] * (V[0][k] - V[1][k]) for k in range(2)))
        x.eq("accepts iff 0 <= mu < 1", x.ret, (mu >= 0) & (mu < 1))
    L.append(E("w_inv12", "const double V[2][2], double *mu", "return ftk::inverse_lerp_s1v2(V, *mu);", ["V", "mu"], inv12, "inverse_linear_interpolation_solver.hh:inverse_lerp_s1v2", "bool"))

    def inv230(x):
        V, T0, mu = x.inp("V", 3, 3), x.inp("T", 3), x.out("mu", 3)
        x.eq("barycentric coordinates sum to one", sum_(mu), 1)
        r = [sum_(mu[i] * V[i][k] for i in range(3)) - T0[k] for k in range(3)]
        for j in range(2):
            x.zero(f"residual orthogonal to edge {j}", sum_(r[k] * (V[j][k] - V[2][k]) for k in range(3)))
    L.append(E("w_inv230", "const double V[3][3], const double T[3], double mu[3]", "return ftk::inverse_lerp_s2v3_0(V, T, mu);", ["V", "T", "mu"], inv230, "inverse_linear_interpolation_solver.hh:inverse_lerp_s2v3_0", "bool"))

    def clamp(x):
        v, a, b = x.var("v"), x.var("a"), x.var("b")
        care = ~(b < a)
        x.eq("clamp", x.ret, (v < a).ite(a, (v > b).ite(b, v)), care)
    L.append(E("w_clamp", "double v, double a, double b", "return ftk::clamp<double>(v, a, b);", ["=v", "=a", "=b"], clamp, "clamp.hh:clamp", "double"))

    def clb(n):
        def f(x):
            v, o = x.inp("v", n), x.out("v", n)
            c = [(e < 0).ite(x.c(0), (e > 1).ite(x.c(1), e)) for e in v]
            s = sum_(c)
            anypos = v[0] > 0
            for e in v[1:]:
                anypos = anypos | (e > 0)
            x.eq("normalised clamped coordinates", [s * e for e in o], c, anypos)
        return f
    for n in (2, 3, 4):
        L.append(E(f"w_clb{n}", f"double v[{n}]", f"ftk::clamp_barycentric<{n}>(v);", ["v"], clb(n), "clamp.hh:clamp_barycentric"))
    return pre, L


# ----------------------------------------------------------------------------- N05
def n05():
    pre = ("#include <limits>\n#include <ftk/numeric/transpose.hh>\n#include <ftk/numeric/matrix_multiplication.hh>\n#include <ftk/numeric/gradient.hh>\n")
    L = []

    def affine(n, d, k):
        """values f_i = c + G X_i  =>  the kernel must return exactly G; inputs are substituted so the identity is decided on normal forms"""
        def f(x):
            X = x.inp("X", n, d)
            G = x.out("g", d) if k is None else x.out("g", d, k)
            F = x.inp("f", n) if k is None else x.inp("f", n, k)
            # interpolation conditions: G (X_i - X_0) = f_i - f_0 for the n-1 = d edges
            for i in range(1, n):
                dx = [X[i][j] - X[0][j] for j in range(d)]
                if k is None:
                    x.eq(f"directional derivative along edge {i}", sum_(G[j] * dx[j] for j in range(d)), F[i] - F[0])
                else:
                    for c in range(k):
                        x.eq(f"component {c}: derivative along edge {i}", sum_(G[j][c] * dx[j] for j in range(d)), F[i][c] - F[0][c])
        return f
    L.append(E("w_g2", "const double X[3][2], const double f[3], double g[2]", "ftk::gradient_2dsimplex2(X, f, g);", ["X", "f", "g"], affine(3, 2, None), "gradient.hh:gradient_2dsimplex2"))

    def aff3(x):       # X_i = o + e_i, V_i = w + d_i  (any tetrahedron is of this form): J must map e_i to d_i
        e, d, J = x.inp("e", 3, 3), x.inp("d", 3, 3), x.out("J", 3, 3)
        for i in range(3):
            for c in range(3):
                x.eq(f"component {c}: derivative along edge {i+1}", sum_(J[j][c] * e[i][j] for j in range(3)), d[i][c])
    L.append(E("w_j3", "const double o[3], const double e[3][3], const double w[3], const double d[3][3], double J[3][3]",
               "double X[4][3], V[4][3]; for (int k = 0; k < 3; k ++) { X[0][k] = o[k]; V[0][k] = w[k]; for (int i = 0; i < 3; i ++) { X[i+1][k] = o[k] + e[i][k]; V[i+1][k] = w[k] + d[i][k]; } } ftk::jacobian_3dsimplex(X, V, J);",
               ["o", "e", "w", "d", "J"], aff3, "gradient.hh:jacobian_3dsimplex"))
    L.append(E("w_j2", "const double X[3][2], const double f[3][2], double g[2][2]", "ftk::jacobian_2dsimplex2(X, f, g);", ["X", "f", "g"], affine(3, 2, 2), "gradient.hh:jacobian_2dsimplex2"))
    return pre, L


# ----------------------------------------------------------------------------- N06: small matrix/vector algebra
def n06():
    hs = ["transpose", "matrix_multiplication", "matrix_addition", "cross_product", "inner_product", "vector_dot_product", "vector_norm", "vector_normalization",
          "vector_assignment", "matrix_decomposition", "symmetric_matrix", "matrix_norm", "cond"]
    pre = "#include <limits>\n#include <algorithm>\n#include <cmath>\n#include <complex>\n" + "".join(f"#include <ftk/numeric/{h}.hh>\n" for h in hs)
    L = []

    def mm(fn, m, k, n, h="matrix_multiplication.hh", flat=False):
        def f(x):
            x.eq("C = A B", x.out("C", m, n), matmul(x.inp("A", m, k), x.inp("B", k, n)))
        nm = "w_" + re.sub(r"\W", "_", fn) + ("f" if flat else "")
        if flat:
            sig = f"const double A[{m*k}], const double B[{k*n}], double C[{m*n}]"
        else:
            sig = f"const double A[{m}][{k}], const double B[{k}][{n}], double C[{m}][{n}]"
        L.append(E(nm, sig, f"ftk::{fn}(A, B, C);", ["A", "B", "C"], f, f"{h}:{fn}{'(flat)' if flat else ''}"))
    mm("matrix_matrix_multiplication<double,3,2,4>", 3, 2, 4)
    mm("matrix2x2_matrix2x2_multiplication", 2, 2, 2)
    mm("matrix2x2_matrix2x3_multiplication", 2, 2, 3)
    mm("matrix3x3_matrix3x3_multiplication", 3, 3, 3)
    mm("matrix3x3_matrix3x3_multiplication", 3, 3, 3, flat=True)
    mm("matrix3x3_matrix3x4_multiplication", 3, 3, 4)
    mm("matrix2x3_matrix3x2_multiplication", 2, 3, 2)
    mm("matrix3x4_matrix4x3_multiplication", 3, 4, 3)

    def mv(fn, m, n, flat=False):
        nm = "w_" + fn + ("f" if flat else "")
        sig = (f"const double A[{m*n}]" if flat else f"const double A[{m}][{n}]") + f", const double b[{n}], double c[{m}]"
        L.append(E(nm, sig, f"ftk::{fn}(A, b, c);", ["A", "b", "c"], lambda x: x.eq("c = A b", x.out("c", m), matvec(x.inp("A", m, n), x.inp("b", n))), "matrix_multiplication.hh:" + fn))
    mv("matrix2x2_vector2_multiplication", 2, 2)
    mv("matrix2x3_vector3_multiplication", 2, 3)
    mv("matrix3x3_vector3_multiplication", 3, 3)
    mv("matrix3x3_vector3_multiplication", 3, 3, True)
    L.append(E("w_sm", "const double A[9], double b, double C[9]", "ftk::matrix3x3_scalar_multiplication(A, b, C);", ["A", "=b", "C"],
               lambda x: x.eq("C = b A", x.out("C", 9), [a * x.var("b") for a in x.inp("A", 9)]), "matrix_multiplication.hh:matrix3x3_scalar_multiplication"))

    def tp(fn, m, n, call=None, flat=False):
        nm = "w_" + re.sub(r"\W", "_", fn) + ("f" if flat else "")
        sig = f"const double A[{m*n}], double B[{m*n}]" if flat else f"const double A[{m}][{n}], double B[{n}][{m}]"
        L.append(E(nm, sig, call or f"ftk::{fn}(A, B);", ["A", "B"], lambda x: x.eq("B = A^T", x.out("B", n, m), tr(x.inp("A", m, n))), "transpose.hh:" + fn))
    tp("transpose<double,2,3>", 2, 3)
    tp("transpose2x2", 2, 2)
    tp("transpose3x3", 3, 3)
    tp("transpose3x3", 3, 3, flat=True)
    tp("transpose3x2", 3, 2)
    tp("transpose2x3", 2, 3)
    tp("transpose4x3", 4, 3)

    def tpi(fn, n, flat, tag):
        sig = f"double m[{n*n}]" if flat else f"double m[{n}][{n}]"
        L.append(E("w_tpi_" + tag, sig, f"ftk::{fn}(m);", ["m"], lambda x: x.eq("in-place transpose", x.out("m", n, n), tr(x.inp("m", n, n))), "transpose.hh:" + fn + "(in place)"))
    tpi("transpose2x2", 2, True, "2")
    tpi("transpose3x3", 3, True, "3f")
    tpi("transpose3x3", 3, False, "3")
    tpi("transpose4x4", 4, True, "4")
    tpi("transpose<double,3>", 3, False, "n")

    def add(fn, k, m, n, tag):
        L.append(E("w_" + tag, f"const double A[{m}][{n}], const double B[{m}][{n}], double C[{m}][{n}]", f"ftk::{fn}(A, B, C);", ["A", "B", "C"],
                   lambda x: x.eq(fn, x.out("C", m, n), [[a + k * b for a, b in zip(r, s)] for r, s in zip(x.inp("A", m, n), x.inp("B", m, n))]), "matrix_addition.hh:" + fn))
    add("matrix_addition<double,2,3>", 1, 2, 3, "madd")
    add("matrix_subtraction<double,2,3>", -1, 2, 3, "msub")
    add("matrix_addition3x3", 1, 3, 3, "madd3")
    add("matrix_subtraction3x3", -1, 3, 3, "msub3")

    L.append(E("w_c2", "const double A[2], const double B[2]", "return ftk::cross_product2(A, B);", ["A", "B"],
               lambda x: x.eq("2D cross product", x.ret, x.inp("A", 2)[0] * x.inp("B", 2)[1] - x.inp("A", 2)[1] * x.inp("B", 2)[0]), "cross_product.hh:cross_product2", "double"))

    def cr(x):
        A, B = x.inp("A", 3), x.inp("B", 3)
        x.eq("cross product", x.out("C", 3), [A[1] * B[2] - A[2] * B[1], A[2] * B[0] - A[0] * B[2], A[0] * B[1] - A[1] * B[0]])
    L.append(E("w_c3", "const double A[3], const double B[3], double C[3]", "ftk::cross_product(A, B, C);", ["A", "B", "C"], cr, "cross_product.hh:cross_product"))
    for fn, n, h in (("inner_product2", 2, "inner_product.hh"), ("inner_product3", 3, "inner_product.hh"), ("vector_dot_product2", 2, "vector_dot_product.hh"), ("vector_dot_product3", 3, "vector_dot_product.hh")):
        L.append(E("w_" + fn, f"const double A[{n}], const double B[{n}]", f"return ftk::{fn}(A, B);", ["A", "B"],
                   (lambda n: lambda x: x.eq("sum A_i B_i", x.ret, sum_(a * b for a, b in zip(x.inp("A", n), x.inp("B", n)))))(n), f"{h}:{fn}", "double"))
    for fn, n, sq in (("vector_2norm_2", 2, True), ("vector_2norm_3", 3, True), ("vector_2norm_4", 4, True), ("vector_2norm<3>", 3, True), ("vector_2norm2<3>", 3, False)):
        def nf(n, sq):
            def f(x):
                s = sum_(a * a for a in x.inp("v", n))
                x.eq("norm", x.ret, s.sqrt() if sq else s)
            return f
        L.append(E("w_" + re.sub(r"\W", "_", fn), f"const double v[{n}]", f"return ftk::{fn}(v);", ["v"], nf(n, sq), f"vector_norm.hh:{fn}", "double"))
    for fn, n, sq in (("vector_dist_2norm_2", 2, True), ("vector_dist_2norm_3", 3, True), ("vector_dist_2norm2<3>", 3, False)):
        def df(n, sq):
            def f(x):
                s = sum_((a - b) * (a - b) for a, b in zip(x.inp("v", n), x.inp("w", n)))
                x.eq("distance", x.ret, s.sqrt() if sq else s)
            return f
        L.append(E("w_" + re.sub(r"\W", "_", fn), f"const double v[{n}], const double w[{n}]", f"return ftk::{fn}(v, w);", ["v", "w"], df(n, sq), f"vector_norm.hh:{fn}", "double"))

    def nrm(n):
        def f(x):
            v, o = x.inp("v", n), x.out("v", n)
            s = sum_(a * a for a in v).sqrt()
            x.eq("norm * normalised = original", [s * e for e in o], v)
            x.eq("returned norm", x.ret, s)
        return f
    for n in (2, 3, 4):
        L.append(E(f"w_nrm{n}", f"double v[{n}]", f"return ftk::vector_normalization2_{n}(v);", ["v"], nrm(n), f"vector_normalization.hh:vector_normalization2_{n}", "double"))

    def nrm2(x):
        v, o = x.inp("v", 3), x.out("w", 3)
        s = sum_(a * a for a in v).sqrt()
        x.eq("norm * normalised = original", [s * e for e in o], v)
    L.append(E("w_nrm3b", "const double v[3], double w[3]", "ftk::vector_normalization2_3(v, w);", ["v", "w"], nrm2, "vector_normalization.hh:vector_normalization2_3(copy)"))
    L.append(E("w_nrm3c", "const double v[3], double w[3]", "ftk::vector_normalization2<3>(v, w);", ["v", "w"], nrm2, "vector_normalization.hh:vector_normalization2(copy)"))

    def va(nm, sig, call, args, want):
        L.append(E("w_" + nm, sig, call, args, lambda x: x.eq(nm, x.out("o", 3), want(x)), "vector_assignment.hh:" + nm))
    va("va_add", "double o[3], const double w[3], const double v[3]", "ftk::vector_assign_addition3(o, w, v);", ["o", "w", "v"], lambda x: [a + b for a, b in zip(x.inp("w", 3), x.inp("v", 3))])
    va("va_sub", "double o[3], const double w[3], const double v[3]", "ftk::vector_assign_subtraction3(o, w, v);", ["o", "w", "v"], lambda x: [a - b for a, b in zip(x.inp("w", 3), x.inp("v", 3))])
    va("va_sm", "double o[3], double a, const double w[3]", "ftk::vector_assign_scalar_multiplication3(o, a, w);", ["o", "=a", "w"], lambda x: [x.var("a") * b for b in x.inp("w", 3)])
    va("va_wa", "double o[3], double a, const double w[3], double b, const double v[3]", "ftk::vector_assign_weighted_addition3(o, a, w, b, v);", ["o", "=a", "w", "=b", "v"],
       lambda x: [x.var("a") * p + x.var("b") * q for p, q in zip(x.inp("w", 3), x.inp("v", 3))])
    va("va_cp", "double o[3], const double w[3]", "ftk::vector_assign3(o, w);", ["o", "w"], lambda x: x.inp("w", 3))

    def sym(x):
        M, S_ = x.inp("M", 3, 3), x.out("S", 3, 3)
        x.eq("S = (M + M^T)/2", S_, [[(M[i][j] + M[j][i]) / 2 for j in range(3)] for i in range(3)])

    def asym(x):
        M, S_ = x.inp("M", 3, 3), x.out("S", 3, 3)
        x.eq("A = (M - M^T)/2", S_, [[(M[i][j] - M[j][i]) / 2 for j in range(3)] for i in range(3)])
    L.append(E("w_sym", "const double M[3][3], double S[3][3]", "ftk::matrix_symmetric_decomposition_3x3(M, S);", ["M", "S"], sym, "matrix_decomposition.hh:matrix_symmetric_decomposition_3x3"))
    L.append(E("w_asym", "const double M[3][3], double S[3][3]", "ftk::matrix_antisymmetric_decomposition_3x3(M, S);", ["M", "S"], asym, "matrix_decomposition.hh:matrix_antisymmetric_decomposition_3x3"))
    for n in (2, 3):
        L.append(E(f"w_mks{n}", f"double M[{n}][{n}]", f"ftk::make_symmetric{n}x{n}(M);", ["M"],
                   (lambda n: lambda x: x.eq("symmetrised", x.out("M", n, n), [[(x.inp("M", n, n)[i][j] + x.inp("M", n, n)[j][i]) / 2 for j in range(n)] for i in range(n)]))(n),
                   f"symmetric_matrix.hh:make_symmetric{n}x{n}"))

    def mx(vals):
        r = vals[0]
        for v in vals[1:]:
            r = (r < v).ite(v, r)
        return r

    def n1(n, ax):
        def f(x):
            m = x.inp("m", n, n)
            m = tr(m) if ax == 0 else m
            x.eq("induced norm", x.ret, mx([sum_(e.abs() for e in r) for r in m]))
        return f
    L.append(E("w_1n2", "const double m[2][2]", "return ftk::matrix_1norm_real2x2(m);", ["m"], n1(2, 0), "matrix_norm.hh:matrix_1norm_real2x2", "double"))
    L.append(E("w_1n3", "const double m[3][3]", "return ftk::matrix_1norm_real3x3(m);", ["m"], n1(3, 0), "matrix_norm.hh:matrix_1norm_real3x3", "double"))
    L.append(E("w_in2", "const double m[2][2]", "return ftk::matrix_inf_norm_real2x2(m);", ["m"], n1(2, 1), "matrix_norm.hh:matrix_inf_norm_real2x2", "double"))
    return pre, L


# ----------------------------------------------------------------------------- N07: critical point classification
def n07():
    pre = ("#include <limits>\n#include <cmath>\n#include <complex>\n#include <string>\n#include <ftk/config.hh>\n#define complex_sqrt complex_sqrt_lib\n#include <ftk/numeric/sqrt.hh>\n#undef complex_sqrt\n"
           "namespace ftk { template <typename T> std::complex<T> complex_sqrt(const std::complex<T> z) { return std::complex<T>(0.0, std::sqrt(-z.real())); } }\n"
           "#include <ftk/numeric/transpose.hh>\n#include <ftk/numeric/matrix_multiplication.hh>\n#include <ftk/numeric/critical_point_type.hh>\nusing namespace ftk;\n")
    L = []
    DEG, ATT, REP, SAD, ATF, REF, CEN = 1, 8, 2, 4, 16, 32, 64

    def sel(x, cases, other):
        r = x.c(other)
        for c, v in reversed(cases):
            r = c.ite(x.c(v), r)
        return r

    def facts(t, d, disc):
        """sign combinations compatible with t^2 = disc + 4 d"""
        tz = t.iszero()
        opp = ((d < 0) & (disc > 0)) | ((d > 0) & (disc < 0)) | (d.iszero() & disc.iszero())
        return (~tz | opp) & (tz | (d > 0) | (disc > 0))

    def sym2(x):
        m = x.inp("J", 2, 2)
        t, d = m[0][0] + m[1][1], m[0][0] * m[1][1] - m[1][0] * m[1][0]
        disc = t * t - 4 * d
        # a real symmetric matrix has disc >= 0
        care = ~(disc < 0) & facts(t, d, disc)
        x.eq("type", x.ret, sel(x, [(d < 0, SAD), ((d > 0) & (t > 0), REP), ((d > 0) & (t < 0), ATT)], DEG), care)
    L.append(E("w_cpt2s", "double J[2][2]", "J[0][1] = J[1][0]; return critical_point_type_2d(J, true);", ["J"], sym2, "critical_point_type.hh:critical_point_type_2d(symmetric)", "unsigned"))

    def gen2(x):
        m = x.inp("J", 2, 2)
        t, d = m[0][0] + m[1][1], m[0][0] * m[1][1] - m[0][1] * m[1][0]
        disc = t * t - 4 * d
        care = facts(t, d, disc)
        want = sel(x, [((disc < 0) & (t < 0), ATF), ((disc < 0) & (t > 0), REF), (disc < 0, CEN), (d < 0, SAD), ((d > 0) & (t > 0), REP), ((d > 0) & (t < 0), ATT)], DEG)
        x.eq("type", x.ret, want, care)
    L.append(E("w_cpt2", "double J[2][2]", "return critical_point_type_2d(J, false);", ["J"], gen2, "critical_point_type.hh:critical_point_type_2d", "unsigned"))

    def sym3(x):
        e = x.out("e", 3)
        z = e[0].iszero() | e[1].iszero() | e[2].iszero()
        neg = (e[0] < 0) & (e[1] < 0) & (e[2] < 0)
        pos = (e[0] > 0) & (e[1] > 0) & (e[2] > 0)
        x.eq("type", x.ret, sel(x, [(z, DEG), (neg, ATT), (pos, REP)], SAD))
    L.append(E("w_cpt3s", "double J[3][3], double e[3]", "solve_eigenvalues_symmetric3x3(J, e); return critical_point_type_3d(J, true);", ["J", "e"], sym3, "critical_point_type.hh:critical_point_type_3d(symmetric)", "unsigned"))
    return pre, L


# ----------------------------------------------------------------------------- N08 / N09: simulation of simplicity
def sos_terms(n):
    """leading coefficients of det[x_ij + e(i,j) | 1], rows 0..n-1, columns 0..n-2, e(i,j) = e^(2^(i*d - j)):
    list of (sign, rows, cols) minors in increasing exponent order, ending at the first constant one"""
    import itertools
    d = n - 1
    w = {(i, j): 1 << (i * d + (d - 1 - j)) for i in range(n) for j in range(d)}
    terms = []
    for k in range(0, n):
        for rows in itertools.combinations(range(n), k):
            for cols in itertools.permutations(range(d), k):
                terms.append((sum(w[i, j] for i, j in zip(rows, cols)), tuple(zip(rows, cols))))
    terms.sort()
    out = []
    for _, pos in terms:
        R = [i for i in range(n) if i not in [p[0] for p in pos]]
        C = [j for j in range(n) if j not in [p[1] for p in pos]]
        # sign of the generalised Laplace term
        perm = [None] * n
        for i, j in pos:
            perm[i] = j
        for i, j in zip(R, C):
            perm[i] = j
        inv = sum(1 for a in range(n) for b in range(a + 1, n) if perm[a] > perm[b])
        out.append((-1 if inv % 2 else 1, R, C))
        if len(C) == 1:           # only the constant column is left
            break
    return out


def sos_sign(X):
    n = len(X)
    r = None
    for s, R, C in reversed(sos_terms(n)):
        m = det([[X[i][j] if j < n - 1 else X[0][0] * 0 + 1 for j in C] for i in R])
        v = m.sign() * s
        r = v if r is None else m.iszero().ite(r, v)
    return r


def positive(X, order):
    """order: rank of each row's global index; sort rows by it, flip by the parity of the sort"""
    n = len(X)
    idx = sorted(range(n), key=lambda i: order[i])
    inv = sum(1 for a in range(n) for b in range(a + 1, n) if idx[a] > idx[b])
    s = sos_sign([X[i] for i in idx])
    return -s if inv % 2 else s


def order_oracle(rank):
    """decides comparisons between distinct global indices (and integer constants, ranks being the index values)"""
    def f(p):
        if not all(isinstance(v, str) and v in rank for v in p.vars()):
            return None
        if any(sum(e for _, e in m) > 1 for m in p.t):
            return None
        vs = p.vars()
        if len(vs) == 2 and p.t.get((), 0) == 0 and sum(p.t.values()) == 0:
            t = sum(c * rank[m[0][0]] for m, c in p.t.items())
            return (t > 0) - (t < 0)
        if len(vs) == 1:
            (v,) = vs
            c, k = p.t.get((), 0), p.t[((v, 1),)]
            if rank[v] >= 0 and c * k >= 0 and c != 0:       # index >= 0 against a negative constant
                return 1 if k > 0 else -1
        return None
    return f


SOSPRE = "#include <cstdio>\n#include <cmath>\n#include <ftk/numeric/sign_det.hh>\n#include <ftk/numeric/critical_point_test.hh>\n"


def shape(x, obj, n, d):
    return [[v] for v in x.inp(obj, n)] if d == 1 else x.inp(obj, n, d)


def n08():
    import itertools
    L = []
    F = "sign_det.hh:"
    for n in (2, 3, 4):
        a = f"const double X[{n}]" + (f"[{n-1}]" if n > 2 else "")
        L.append(E(f"w_rsd{n}", a, f"return ftk::robust_sign_det{n}<double>(X);", ["X"], (lambda n: lambda x: x.eq("sign of the perturbed determinant", x.ret, sos_sign(shape(x, "X", n, n - 1))))(n), F + f"robust_sign_det{n}", "int"))
    for n in (2, 3, 4):
        a = f"const double X[{n}]" + (f"[{n-1}]" if n > 2 else "") + f", const int i[{n}]"
        for k, rank in enumerate(itertools.permutations(range(n))):
            def chk(x, n=n, rank=rank):
                x.eq(f"orientation for index order {rank}", x.ret, positive(shape(x, "X", n, n - 1), rank))
            e = E(f"w_pos{n}", a, f"return ftk::positive{n-1}<double>(X, i);", ["X", "i"], chk, F + f"positive{n-1}", "int", order_oracle({f"i[{j}]": r for j, r in enumerate(rank)}))
            if k:
                e.code = ""
                e.fn = e.name
                e.name += f"_{k}"
            L.append(e)
    return SOSPRE, L


def n09(thorough=False):
    import itertools
    L = []
    for n in (2, 3, 4):
        d = n - 1
        sh = f"[{n}]" + (f"[{d}]" if n > 2 else "")
        xs = "const double p" + (f"[{d}]" if n > 2 else "")

        def want(x, X, P, rank, rp, n=n):
            s = positive(X, rank)
            r = None
            for i in range(n):
                Y = [P if j == i else X[j] for j in range(n)]
                o = [rp if j == i else rank[j] for j in range(n)]
                e = (positive(Y, o) - s).iszero()
                r = e if r is None else r & e
            return r
        for k, rank in enumerate(itertools.permutations(range(n))):
            def chk(x, n=n, d=d, rank=rank, want=want):
                X = shape(x, "X", n, d)
                x.eq(f"zero inside the simplex for index order {rank}", x.ret, want(x, X, [x.c(0)] * d, rank, -1))
            e = E(f"w_cpis{n}", f"const double X{sh}, const int i[{n}]", f"return ftk::robust_critical_point_in_simplex{d}<double,int>(X, i);", ["X", "i"], chk,
                  f"critical_point_test.hh:robust_critical_point_in_simplex{d}", "bool", order_oracle({f"i[{j}]": r for j, r in enumerate(rank)}))
            if k:
                e.code, e.fn, e.name = "", e.name, e.name + f"_{k}"
            L.append(e)
        if n == 4 and not thorough:
            orders = [o for o in itertools.permutations(range(5)) if o[4] in (0, 4) and o[0] < o[1]]
            orders = orders[:8]
        else:
            orders = list(itertools.permutations(range(n + 1)))
        for k, rank in enumerate(orders):
            def chk2(x, n=n, d=d, rank=rank, want=want):
                X = shape(x, "X", n, d)
                P = [x.var("p")] if d == 1 else x.inp("p", d)
                x.eq(f"point inside the simplex for index order {rank}", x.ret, want(x, X, P, rank[:n], rank[n]))
            rk = {f"i[{j}]": r for j, r in enumerate(rank[:n])}
            rk["ix"] = rank[n]
            e = E(f"w_pis{n}", f"const double X{sh}, const int i[{n}], {xs}, int ix", f"return ftk::robust_point_in_simplex{d}<double>(X, i, p, ix);",
                  ["X", "i", "=p" if d == 1 else "p", "=ix"], chk2, f"sign_det.hh:robust_point_in_simplex{d}", "bool", order_oracle(rk))
            if k:
                e.code, e.fn, e.name = "", e.name, e.name + f"_{k}"
            L.append(e)
    return SOSPRE, L


# ----------------------------------------------------------------------------- N10
def n10():
    pre = ("#include <cmath>\n#include <limits>\n#include <ftk/config.hh>\n#include <ftk/numeric/clamp.hh>\n#include <ftk/numeric/polynomial.hh>\n#include <ftk/numeric/vector_normalization.hh>\n"
           "#include <ftk/numeric/cross_product.hh>\n#include <ftk/numeric/vector_dot_product.hh>\n#include <ftk/numeric/quaternion.hh>\n#include <ftk/numeric/fmod.hh>\n#include <ftk/numeric/rad.hh>\n#include <ftk/numeric/gcd.hh>\n#include <ftk/numeric/quadratic_interpolation.hh>\n#include <ftk/numeric/vector_norm.hh>\n#include <ftk/numeric/mpas.hh>\n#include <ftk/numeric/wachspress_interpolation.hh>\n")
    L = []
    W = "polynomial.hh:"

    def get(P, i):
        return P[i] if i < len(P) else 0

    def comb(k):
        def mk(m, n):
            def f(x):
                P, Q = x.inp("P", m + 1), x.inp("Q", n + 1)
                N = max(m, n) + 1
                x.eq("sum" if k > 0 else "difference", x.out("R", N), [x.c(0) + get(P, i) + k * get(Q, i) for i in range(N)])
            return f
        return mk

    def mul(m, n):
        def f(x):
            P, Q = x.inp("P", m + 1), x.inp("Q", n + 1)
            R = [x.c(0)] * (m + n + 1)
            for i in range(m + 1):
                for j in range(n + 1):
                    R[i + j] = R[i + j] + P[i] * Q[j]
            x.eq("product", x.out("R", m + n + 1), R)
        return f
    for m in range(5):
        for n in range(5):
            if max(m, n) == 4 and min(m, n) not in (0, 1, 4):
                continue
            for nm, c in (("addition", comb(1)), ("subtraction", comb(-1)), ("multiplication", mul)):
                k = m + n if nm == "multiplication" else max(m, n)
                L.append(E(f"w_{nm[:3]}{m}{n}", f"const double P[{m+1}], const double Q[{n+1}], double R[{k+1}]", f"ftk::polynomial_{nm}(P, {m}, Q, {n}, R);", ["P", "Q", "R"],
                           c(m, n), W + f"polynomial_{nm}"))
            if m >= n:
                for nm, k in (("addition", 1), ("subtraction", -1)):
                    def ip(x, m=m, n=n, k=k):
                        P, Q = x.inp("P", m + 1), x.inp("Q", n + 1)
                        x.eq("in place", x.out("P", m + 1), [x.c(0) + P[i] + k * get(Q, i) for i in range(m + 1)])
                    L.append(E(f"w_{nm[:3]}ip{m}{n}", f"double P[{m+1}], const double Q[{n+1}]", f"ftk::polynomial_{nm}_in_place(P, {m}, Q, {n});", ["P", "Q"], ip, W + f"polynomial_{nm}_in_place"))
    for m in range(6):
        def val(P, y, x):
            r = x.c(0)
            for c in reversed(P):
                r = r * y + c
            return r

        def ev(x, m=m):
            x.eq("value", x.ret, val(x.inp("P", m + 1), x.var("x"), x))
        L.append(E(f"w_eval{m}", f"const double P[{m+1}], double x", f"return ftk::polynomial_evaluate(P, {m}, x);", ["P", "=x"], ev, W + "polynomial_evaluate", "double"))

        def cp(x, m=m):
            x.eq("copy", x.out("Q", m + 1), x.inp("P", m + 1))
        L.append(E(f"w_cpy{m}", f"const double P[{m+1}], double Q[{m+1}]", f"ftk::polynomial_copy(P, {m}, Q);", ["P", "Q"], cp, W + "polynomial_copy"))

        def sc(x, m=m):
            x.eq("multiple", x.out("P", m + 1), [c * x.var("s") for c in x.inp("P", m + 1)])
        L.append(E(f"w_scl{m}", f"double P[{m+1}], double s", f"ftk::polynomial_scalar_multiplication(P, {m}, s);", ["P", "=s"], sc, W + "polynomial_scalar_multiplication"))

        def der(x, m=m):
            P = x.inp("P", m + 1)
            x.eq("derivative", x.out("R", m), [P[i + 1] * (i + 1) for i in range(m)])

        def ed(x, m=m):
            P = x.inp("P", m + 1)
            x.eq("value of the derivative", x.ret, val([P[i + 1] * (i + 1) for i in range(m)], x.var("x"), x))
        if m:
            L.append(E(f"w_der{m}", f"const double P[{m+1}], double R[{m}]", f"ftk::polynomial_derivative(P, {m}, R);", ["P", "R"], der, W + "polynomial_derivative"))
            L.append(E(f"w_evd{m}", f"const double P[{m+1}], double x", f"return ftk::polynomial_evaluate_derivative(P, {m}, x);", ["P", "=x"], ed, W + "polynomial_evaluate_derivative", "double"))
        for nm, i0 in (("zero", 0), ("constant", 1)):
            def pz(x, m=m, i0=i0):
                r = x.c(0).iszero()
                for c in x.inp("P", m + 1)[i0:]:
                    r = r & ~(c.abs() > x.var("e"))
                x.eq("all coefficients vanish", x.ret, r)
            L.append(E(f"w_is{nm}{m}", f"const double P[{m+1}], double e", f"return ftk::polynomial_equals_to_{nm}(P, {m}, e);", ["P", "=e"], pz, W + f"polynomial_equals_to_{nm}", "bool"))

    def qm(a, b):
        (s, *u), (t, *v) = a, b
        c = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
        return [s * t - u[0] * v[0] - u[1] * v[1] - u[2] * v[2]] + [s * v[i] + t * u[i] + c[i] for i in range(3)]

    def quat(x):
        x.eq("quaternion product", x.out("z", 4), qm(x.inp("x", 4), x.inp("y", 4)))
    L.append(E("w_quat", "const double x[4], const double y[4], double z[4]", "ftk::quatmul(x, y, z);", ["x", "y", "z"], quat, "quaternion.hh:quatmul"))

    def rot(x):
        a, v, t = x.inp("a", 3), x.inp("v", 3), x.var("t")
        n2 = a[0] * a[0] + a[1] * a[1] + a[2] * a[2]
        nn = n2.sqrt()
        c, s = (t / 2).fn("cos"), (t / 2).fn("sin")
        q = [c] + [s * (e / nn) for e in a]
        p = qm(qm(q, [x.c(0)] + v), [q[0]] + [0 - e for e in q[1:]])
        x.eq("rotated vector", x.out("r", 3), p[1:], care=n2 > 0)
    L.append(E("w_rot", "const double a[3], double t, const double v[3], double r[3]", "ftk::axis_rotate_vector(a, t, v, r);", ["a", "=t", "v", "r"], rot, "quaternion.hh:axis_rotate_vector"))

    pi = 3.14159265358979323846

    def fm(x):
        z = x.var("x").fn("fmod", x.var("y"))
        x.eq("remainder", x.ret, (z < 0).ite(z + x.var("y"), z))
    L.append(E("w_fmod1", "double x, double y", "return ftk::fmod1(x, y);", ["=x", "=y"], fm, "fmod.hh:fmod1", "double"))

    def m2(x, sh=0):
        z = (x.var("x") + x.c(sh)).fn("fmod", x.c(2 * pi))
        x.eq("angle", x.ret, (z < 0).ite(z + x.c(2 * pi), z) - x.c(sh))
    L.append(E("w_mod2pi", "double x", "return ftk::mod2pi(x);", ["=x"], m2, "fmod.hh:mod2pi", "double"))
    L.append(E("w_mod2pi1", "double x", "return ftk::mod2pi1(x);", ["=x"], lambda x: m2(x, pi), "fmod.hh:mod2pi1", "double"))
    L.append(E("w_d2r", "double x", "return ftk::deg2rad(x);", ["=x"], lambda x: x.eq("radians", x.ret, x.var("x") * x.c(pi) / 180), "rad.hh:deg2rad", "double"))
    L.append(E("w_r2d", "double x", "return ftk::rad2deg(x);", ["=x"], lambda x: x.eq("degrees", x.ret, x.var("x") / x.c(pi) * 180), "rad.hh:rad2deg", "double"))

    # quadratic interpolation: nodes 3, 4, 5 are the midpoints of the sides 01, 12, 20
    half = [(0, 1), (1, 2), (2, 0)]

    def form(Q, u, v):
        return sum((Q[i][j] * u[i] * v[j] for i in range(3) for j in range(3)), 0)

    def q6(x):
        f, Q = x.inp("f", 6), x.out("Q", 3, 3)
        x.eq("symmetric form", [Q[i][j] for i in range(3) for j in range(i)], [Q[j][i] for i in range(3) for j in range(i)])
        for i in range(3):
            u = [x.c(1 if k == i else 0) for k in range(3)]
            x.eq(f"value at corner {i}", form(Q, u, u), f[i])
            a, b = half[i]
            u = [x.c(1) / 2 if k in (a, b) else x.c(0) for k in range(3)]
            x.eq(f"value at the middle of side {a}{b}", form(Q, u, u), f[3 + i])
    QI = "quadratic_interpolation.hh:"
    L.append(E("w_q6", "const double f[6], double Q[3][3]", "ftk::quadratic_interpolation_coefficient_simplex2(f, Q);", ["f", "Q"], q6, QI + "quadratic_interpolation_coefficient_simplex2"))

    def sym(x):
        Q = x.inp("Q", 3, 3)                                  # the functions are given a symmetric form
        return [[Q[min(i, j)][max(i, j)] for j in range(3)] for i in range(3)]

    def qg(x):
        Q, mu = sym(x), x.inp("mu", 3)
        x.eq("gradient of the form", x.out("g", 3), [2 * sum((Q[i][j] * mu[j] for j in range(3)), 0) for i in range(3)])
    L.append(E("w_qg", "const double Q[3][3], const double mu[3], double g[3]", "double S[3][3]; for (int i = 0; i < 3; i ++) for (int j = 0; j < 3; j ++) S[i][j] = i < j ? Q[i][j] : Q[j][i]; ftk::quadratic_interpolation_gradient_simplex2(S, mu, g);", ["Q", "mu", "g"], qg, QI + "quadratic_interpolation_gradient_simplex2"))

    def qgv(x):
        Q, g = x.inp("Q", 3, 3), x.out("g", 3, 3)
        for i in range(3):
            x.eq(f"gradient at corner {i}", g[i], [2 * Q[i][j] for j in range(3)])
    L.append(E("w_qgv", "const double Q[3][3], double g[3][3]", "ftk::quadratic_interpolation_gradient_simplex2_vertices(Q, g);", ["Q", "g"], qgv, QI + "quadratic_interpolation_gradient_simplex2_vertices"))

    def qc(x):
        f, X, Q = x.inp("f", 6), x.inp("X", 3, 2), x.out("Q", 3, 3)
        d = det([[X[i][0], X[i][1], x.c(1)] for i in range(3)])
        P = [X[i] for i in range(3)] + [[(X[a][k] + X[b][k]) / 2 for k in range(2)] for a, b in half]
        for i, p in enumerate(P):
            u = [p[0], p[1], x.c(1)]
            x.eq(f"value at node {i}", form(Q, u, u), f[i], care=~d.iszero())
    L.append(E("w_qc", "const double f[6], const double X[3][2], double Q[3][3]", "ftk::quadratic_interpolation_coefficients(f, X, Q);", ["f", "X", "Q"], qc, QI + "quadratic_interpolation_coefficients"))

    def qv(x):
        Q, p = sym(x), x.inp("p", 2)
        u = [p[0], p[1], x.c(1)]
        x.eq("value of the form", x.ret, form(Q, u, u))
    L.append(E("w_qv", "const double Q[3][3], const double p[2]", "double S[3][3]; for (int i = 0; i < 3; i ++) for (int j = 0; j < 3; j ++) S[i][j] = i < j ? Q[i][j] : Q[j][i]; return ftk::quadratic_interpolation(S, p);", ["Q", "p"], qv, QI + "quadratic_interpolation", "double"))

    def qgx(x):
        Q, X = sym(x), x.inp("X", 3, 2)
        x.eq("gradient at the corners", x.out("g", 3, 2), [[2 * (Q[k][0] * X[i][0] + Q[k][1] * X[i][1] + Q[k][2]) for k in range(2)] for i in range(3)])
    SY = "double S[3][3]; for (int i = 0; i < 3; i ++) for (int j = 0; j < 3; j ++) S[i][j] = i < j ? Q[i][j] : Q[j][i]; "
    L.append(E("w_qgx", "const double Q[3][3], const double X[3][2], double g[3][2]", SY + "ftk::quadratic_interpolation_gradient(S, X, g);", ["Q", "X", "g"], qgx, QI + "quadratic_interpolation_gradient"))

    def qh(x):
        Q = sym(x)
        x.eq("Hessian", x.out("H", 2, 2), [[2 * Q[i][j] for j in range(2)] for i in range(2)])
    L.append(E("w_qh", "const double Q[3][3], double H[2][2]", SY + "ftk::quadratic_interpolation_hessian(S, H);", ["Q", "H"], qh, QI + "quadratic_interpolation_hessian"))

    # polygonal cells
    def cr(u, v):
        return [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]

    def area(a, b, c):
        w = cr([b[k] - a[k] for k in range(3)], [c[k] - a[k] for k in range(3)])
        return (w[0] * w[0] + w[1] * w[1] + w[2] * w[2]).sqrt() / 2
    for n in (3, 4, 5, 6):
        def pin(x, n=n):
            X, p = x.inp("X", n, 3), x.inp("p", 3)
            r = x.c(0).iszero()
            for i in range(n):
                w = cr(X[i], X[(i + 1) % n])
                r = r & ~(w[0] * p[0] + w[1] * p[1] + w[2] * p[2] < 0)
            x.eq("inside the cell", x.ret, r)
        L.append(E(f"w_pim{n}", f"const double X[{n}][3], const double p[3]", f"return ftk::point_in_mpas_cell<double>({n}, X, p);", ["X", "p"], pin, "mpas.hh:point_in_mpas_cell", "bool"))
    for n in (3, 4, 5):
        def wach(x, n=n):
            X, p = x.inp("X", n, 3), x.inp("p", 3)
            A = [area(X[i], p, X[(i + 1) % n]) for i in range(n)]
            w = []
            for i in range(n):
                v = area(X[i], X[i - 1], X[(i + 1) % n])
                for j in range(n):
                    if j not in (i, (i - 1) % n):
                        v = v * A[j]
                w.append(v)
            t = sum(w[1:], w[0])
            x.eq("weights", x.out("o", n), [v / t for v in w])
        L.append(E(f"w_wach{n}", f"const double X[{n}][3], const double p[3], double o[{n}]", f"ftk::wachspress_weights<double>({n}, X, p, o);", ["X", "p", "o"], wach, "wachspress_interpolation.hh:wachspress_weights"))
    return pre, L
