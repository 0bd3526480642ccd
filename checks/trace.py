"""T07: how extracted points become curves, read as comprehensions.
Every loop over a container (by range, by index or by iterator) is a generator; every insertion under it is a row `what | generators, guards`.
The rows of a function are compared with the rows tracing is defined by: the neighbours of an element, the points that enter, the pairs that are joined, the pieces that become curves."""
import srclib as s
from paths import An, Un, Path, lin, neg, show, showlit

MUT = {"insert", "emplace", "emplace_back", "push_back", "push_front", "add", "erase", "clear", "unite", "pop_back", "pop_front", "remove", "resize", "assign", "set", "splice", "filter", "foreach", "swap"}
SEQ = {"emplace_back": "push_back", "emplace": "insert", "insert_or_assign": "insert"}
PURE = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "size", "empty", "find", "count", "at", "front", "back", "has", "get_sets", "sync", "decl", "reserve", "contains"}
BUILTIN = {"begin": "end", "cbegin": "cend"}


class Tr(An):
    locals = True

    def decl(self, p, v):
        place = ("l", f"{v['n']}#{v['id']}")
        p = p.copy()
        p.ev = p.ev + (("decl", place, v.get("t", ""), v.get("l", 0)),)
        return super().decl(p, v)

    def docall(self, p, n, nm, b, av, a):
        if nm == "swap" and b is None and len(av) == 2 and None not in av and all(x[0] in ("l", "m", "[]", ".") for x in av):
            q = p.copy()
            x, y = self.load(q, av[0]), self.load(q, av[1])
            q.mem[av[0]], q.mem[av[1]] = y, x
            q.ev = q.ev + (("set", av[0], y, n["l"]), ("set", av[1], x, n["l"]))
            yield q, ("void",)
            return
        yield from super().docall(p, n, nm, b, av, a)


def st(v):
    """a value without the versions of what it was read from"""
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == "at" and len(v) == 3:
        return st(v[1])
    if v[0] == "call" and len(v) == 5:
        v = v[:4]
    return tuple(st(x) if isinstance(x, tuple) else x for x in v)


def has(v, x):
    return v == x or isinstance(v, tuple) and any(has(y, x) for y in v)


def subst(v, m):
    if not isinstance(v, tuple):
        return v
    if v in m:
        return m[v]
    w = tuple(subst(x, m) if isinstance(x, tuple) else x for x in v)
    return m.get(w, w)


class Row:
    def __init__(self, op, base, args, line, gens=(), guards=(), early=False):
        self.op, self.base, self.args, self.line, self.gens, self.guards, self.early = op, base, args, line, gens, guards, early

    def key(self):
        return (self.op, self.base, self.args, self.gens, self.early)

    def under(self, g, early):
        return Row(self.op, self.base, self.args, self.line, (g,) + self.gens, tuple(x for x in self.guards if not (g[0] == "e" and filled(x, g[1]))), self.early or early)

    def __repr__(self):
        return f"{show(self.base) + '.' if self.base else ''}{self.op}({', '.join(show(a) for a in self.args)})" + (" | " if self.gens or self.guards else "") + ", ".join([sh(g) for g in self.gens] + [shg(g) for g in self.guards]) + (" (leaves early)" if self.early else "")


CC, LC = "extract_connected_components", "connected_component_to_linear_components"
OFF, ON = "trace_critical_points_offline", "trace_critical_points_online"


def calls(r):
    return r.op in (CC, LC, OFF, ON)


def filled(g, rng):
    """a guard that says that rng is not empty"""
    if g[0] != "lit" or g[1][0] not in ("ge0", "eq0"):
        return False
    c, d = lin(g[1][1])
    if len(d) != 1:
        return False
    (a, k), = d.items()
    return a[:3] == ("call", "size", rng) and (g[1][0] == "ge0" and g[2] and c == -1 and k == 1 or g[1][0] == "eq0" and not g[2] and c == 0)


def sh(g):
    return f"each of {show(g[1])}" if g[0] == "e" else "pass of " + show(g[1])


def shg(g):
    if g[0] == "in":
        return f"{show(g[1])} {'in' if g[3] else 'not in'} {show(g[2])}"
    if g[0] == "eq":
        return f"{show(g[1])} {'==' if g[3] else '!='} {show(g[2])}"
    if g[0] == "lit":
        return showlit(g)
    return str(g[0]) + (" " + show(g[1]) if len(g) > 1 and isinstance(g[1], tuple) else "")


class Comp:
    """the rows of one function"""

    def __init__(self, F, f, unroll=0):
        self.F, self.f = F, f
        self.A = Tr(F, f.get("cls", ""), lambda nm, b, a, n, g: nm, lambda g: False)
        self.A.unroll = unroll
        ps = self.A.run(f)
        self.lams = {}
        self.defs, self.count, self.types = {}, {}, {}
        for p in ps:
            self.scan(p.ev)
        bad = {k for k, n in self.count.items() if n > 1}
        self.defs = {k: v for k, v in self.defs.items() if k not in bad}
        for _ in range(6):
            d = {k: subst(v, {x: y for x, y in self.defs.items() if x != k}) for k, v in self.defs.items()}
            if d == self.defs:
                break
            self.defs = d
        self.start = {}
        self.first = {}         # the last value a local was given, for loops whose counter is set before
        self.rows = self.alts([(p.lits, p.ev, None, None) for p in ps], (), {})
        self.noret = any(not p.ret or p.ret[1] is None for p in ps)
        self.rets = {self.norm(p.ret[1], {}) for p in ps if p.ret and p.ret[1] is not None}

    # ---- locals that stand for one value
    def scan(self, ev):
        here = set()
        for e in ev:
            if e[0] == "decl":
                self.types[e[1]] = e[2]
            elif e[0] == "set" and (e[1][0] == "l" or e[1][0] == "m" and CC in str(e[2])[:60]):
                v = st(e[2])
                if has(v, e[1]):
                    self.count[e[1]] = 9
                if e[1] in here or e[1] in self.defs and self.defs[e[1]] != v:
                    self.count[e[1]] = 9
                here.add(e[1])
                self.defs[e[1]] = v
            elif e[0] == "call":
                if e[1] in MUT and e[2] is not None:
                    b = st(e[2])
                    while b[0] in (".", "[]"):
                        b = b[1]
                    if b[0] == "l":
                        self.count[b] = 9
                for a in list(e[3]) + ([e[2]] if e[2] else []):
                    self.lambdas(st(a))
            elif e[0] == "loop":
                for a in e[2]:
                    self.scan(a[1])

    def lambdas(self, v):
        if isinstance(v, tuple):
            if len(v) == 2 and v[0] == "lambda" and v[1] in self.A.lam:
                if v[1] not in self.lams:
                    self.lams[v[1]] = None
                    n = self.A.lam[v[1]][0]
                    ar = [("l", f"{p['n']}#") if i else ("p", v[1], 0) for i, p in enumerate(n["params"])]
                    self.lams[v[1]] = self.body(v[1], ar)
                    for p in self.lams[v[1]]:
                        self.scan(p.ev)
                return
            for x in v:
                self.lambdas(x)

    def body(self, i, av):
        n, env, mem = self.A.lam[i]
        q = Path()
        q.env = dict(env)
        for p, v in zip(n["params"], av):
            q.env[p["id"]] = v
        self.A.depth = 0
        return self.A.stmts([q], n["body"])

    def norm(self, v, m):
        v = st(v)
        for _ in range(8):
            w = subst(v, {**self.defs, **m})
            if w == v:
                break
            v = w
        return self.elem(v)

    def elem(self, v):
        if not isinstance(v, tuple):
            return v
        v = tuple(self.elem(x) if isinstance(x, tuple) else x for x in v)
        if v[:1] == ("[]",) and len(v) == 3 and v[2][:1] == ("idx",) and v[2][1][1] == v[1]:
            return v[2][1]
        if v[:2] == ("call", "at") and len(v) == 4 and len(v[3]) == 1 and v[3][0][:1] == ("idx",) and v[3][0][1][1] == v[2]:
            return v[3][0][1]
        if v[:2] == ("call", "at") and len(v) == 4 and len(v[3]) == 1 and v[2] is not None:
            return ("[]", v[2], v[3][0])
        if v[:1] == (".",) and len(v) == 3 and v[2] in ("first", "second") and v[1][:2] == ("call", "find") and v[1][2] is not None and len(v[1][3]) == 1:
            return ("[]", v[1][2], v[1][3][0]) if v[2] == "second" else v[1][3][0]
        return v

    # ---- literals
    def guard(self, l, m):
        l = self.norm(l, m)
        f, pos = l[1], l[2]
        if f[0] in ("eq0", "ge0"):
            c, d = lin(f[1])
            at = {a[1]: a for a in d if a[0] == "call"}
            if f[0] == "eq0" and c == 0 and len(d) == 2 and "find" in at and ("end" in at or "cend" in at):
                a = at["find"]
                if a[2] == (at.get("end") or at.get("cend"))[2] and len(a[3]) == 1:
                    return ("in", a[3][0], a[2], not pos)
            if len(d) == 1 and "count" in at:
                a, k = at["count"], d[at["count"]]
                if f[0] == "eq0" and c == 0:
                    return ("in", a[3][0], a[2], not pos)
                if f[0] == "ge0" and c == -1 and k == 1 or f[0] == "ge0" and c == 0 and k == -1:
                    return ("in", a[3][0], a[2], (k == 1) == pos)
            if f[0] == "eq0" and c == 0 and len(d) == 2 and sorted(d.values()) == [-1, 1]:
                a, b = sorted(d, key=repr)
                return ("eq", a, b, pos)
        if f[0] == "t" and f[1][0] == "call" and f[1][1] in ("has", "count", "contains") and len(f[1][3]) == 1:
            return ("in", f[1][3][0], f[1][2], pos)
        if f[0] == "t" and f[1][0] == "call" and f[1][1] in ("operator==", "operator!="):
            x = [a for a in (f[1][2],) + f[1][3] if a is not None]
            if len(x) == 2:
                a, b = sorted(x, key=repr)
                return ("eq", a, b, pos == (f[1][1] == "operator=="))
        return ("lit", f, pos)

    # ---- rows
    def alts(self, alts, gens, m):
        """the rows of alternatives; guards are kept when a row does not occur in all of them"""
        per = []
        for lits, ev, ret, brk in alts:
            rs, n = self.seq(ev, gens, m), {}
            if brk or ret is not None:
                rs.append(Row("leave", None, (), ev[-1][-1] if ev else 0))
            for r in rs:
                k = (r.key(), r.guards)
                r.occ = n[k] = n.get(k, 0) + 1
            per.append(({self.guard(l, m) for l in lits}, rs))
        order = []
        for g, rs in per:
            at = 0
            for r in rs:
                k = (r.key(), r.guards, r.occ)
                if k in order:
                    at = max(at, order.index(k) + 1)
                else:
                    order.insert(at, k)
                    at += 1
        out = []
        for k in order:
            have = [(g, next(r for r in rs if (r.key(), r.guards, r.occ) == k)) for g, rs in per if any((r.key(), r.guards, r.occ) == k for r in rs)]
            r = have[0][1]
            if len(have) == len(per):
                out.append(Row(r.op, r.base, r.args, r.line, r.gens, r.guards, r.early))
                continue
            common = set.intersection(*[g for g, _ in have])
            rest = [g for g, rs in per if not any((x.key(), x.guards, x.occ) == k for x in rs)]
            for c in sorted(common, key=repr):          # literals that do not matter
                if all(any(opp(x) in g for x in common - {c}) for g in rest):
                    common = common - {c}
            if all(any(opp(x) in g for x in common) for g in rest):
                gs = tuple(x for x in sorted(common, key=repr) if not any(y[0] == "e" and filled(x, y[1]) for y in r.gens))
            else:
                gs = (("some paths only",),)
            out.append(Row(r.op, r.base, r.args, r.line, r.gens, tuple(sorted(set(r.guards) | set(gs), key=repr)), r.early))
        return out

    def seq(self, ev, gens, m):
        out = []
        for e in ev:
            if e[0] == "decl":
                out.append(Row("decl", None, (e[1],), e[3]))
            elif e[0] == "set":
                if e[1][0] == "l":
                    self.first[e[1]] = self.norm(e[2], m)
                if e[1][0] != "l" or e[1] not in self.defs:
                    out.append(Row("set", None, (self.norm(e[1], m) if e[1][0] != "l" else e[1], self.norm(e[2], m)), e[3]))
            elif e[0] == "loop":
                g, mm, early, alts = self.head(e, gens, m)
                out += [r.under(g, early) for r in self.alts(alts, gens + (g,), mm)]
            else:
                out += self.call(e, gens, m)
        return out

    def fresh(self, rng, gens):
        return ("e", rng, sum(1 for g in gens if g[0] == "e" and g[1] == rng))

    def head(self, e, gens, m):
        hd, alts = e[1], e[2]
        early = any(a[2] is not None or a[3] for a in alts)
        if hd[0] == "each":
            rng = self.norm(hd[1], m)
            g = self.fresh(rng, gens)
            mm = dict(m)
            mm[("[]", st(hd[1]), ("it", e[3]))] = g
            mm[("[]", rng, ("it", e[3]))] = g
            return g, mm, early, alts
        l = hd[1]
        init = dict((k, self.norm(v, m)) for k, v in hd[2]) if len(hd) > 2 else {}
        for k in {v[1] for a in alts for v in a[1] if v[0] == "set" and v[1][0] == "l"}:
            self.start[k] = init.get(k) or self.first.get(k)
        if isinstance(l, tuple) and l[0] == "lit":
            f = self.norm(l[1], m)
            c, d = lin(f[1]) if f[0] in ("ge0", "eq0") else (0, {})
            for x, k in d.items():
                if x[0] != "l" or len(d) != 2 or k not in (1, -1):
                    continue
                y, ky = next((a, b) for a, b in d.items() if a != x)
                if ky != -k or y[0] != "call" or y[3]:
                    continue
                steps = {st(v[2]) for a in alts for v in a[1] if v[0] == "set" and v[1] == x}
                if steps != {("lin", 1, ((x, 1),))} or not all(sum(1 for v in a[1] if v[0] == "set" and v[1] == x) == 1 for a in alts if not a[3] and a[2] is None):
                    continue
                beg = init.get(x) or self.first.get(x)
                ok = f[0] == "ge0" and l[2] and c == -1 and k == -1 or f[0] == "eq0" and not l[2] and c == 0
                if ok and y[1] in ("size", "length") and beg == ("int", 0):
                    g = self.fresh(y[2], gens)
                    return g, {**m, x: ("idx", g)}, early, self.noinc(alts, x)
                if f[0] == "eq0" and not l[2] and c == 0 and y[1] in ("end", "cend") and beg is not None and beg[:2] in (("call", "begin"), ("call", "cbegin")) and beg[2] == y[2]:
                    g = self.fresh(y[2], gens)
                    return g, {**m, x: g}, early, self.noinc(alts, x)
        return ("w", self.norm(l, m) if isinstance(l, tuple) else ("t", l)), m, early, alts

    def noinc(self, alts, x):
        return [(a[0], tuple(v for v in a[1] if not (v[0] == "set" and v[1] == x)), a[2], a[3]) for a in alts]

    def call(self, e, gens, m):
        nm, line = SEQ.get(e[1], e[1]), e[4]
        base = self.norm(e[2], m) if e[2] is not None else None
        if e[2] is not None and st(e[2])[0] == "l":
            base = self.norm(st(e[2]), m)
        args = tuple(self.norm(a, m) for a in e[3])
        if nm in ("parallel_for_container", "foreach") or nm == "parallel_for":
            rng = args[0] if nm != "foreach" else base
            lam = next((a for a in args if a and a[0] == "lambda"), None)
            if lam is not None and self.lams.get(lam[1]):
                mm = dict(m)
                if nm == "parallel_for":
                    if rng[0] == "call" and rng[1] == "size":
                        g = self.fresh(rng[2], gens)
                        mm[("p", lam[1], 0)] = ("idx", g)
                    else:
                        g = ("w", rng)
                else:
                    g = self.fresh(rng, gens)
                    mm[("p", lam[1], 0)] = g
                return [r.under(g, False) for r in self.alts([(p.lits, p.ev, None, None) for p in self.lams[lam[1]]], gens + (g,), mm)]
        if nm == "insert" and len(args) == 2 and all(a and a[0] == "call" for a in args) and args[0][1] in BUILTIN and args[1][1] == BUILTIN[args[0][1]] and args[0][2] == args[1][2]:
            g = self.fresh(args[0][2], gens)
            return [Row("insert", base, (g,), line, (g,))]
        return [Row(nm, base, args, line)]


def opp(g):
    if g[0] == "lit":
        n = neg(("lit", g[1], g[2]))
        return n if not isinstance(n, bool) else None
    return g[:-1] + (not g[-1],) if len(g) > 1 and isinstance(g[-1], bool) else None


# ---------------------------------------------------------------- the rules
class Site:
    """one function that traces"""

    def __init__(self, R, F, f):
        self.R, self.f, self.C = R, f, Comp(F, f)
        self.q = s.norm(f.get("q") or f["n"])
        self.rows = self.C.rows
        self.n = 0

    def bad(self, line, text):
        self.R.violation(f"{self.q}/{text[:60]}", f"{self.f['file']}:{line}", f"{self.q}: {text}")

    def ok(self):
        self.R.cov["obligations"] = self.R.cov.get("obligations", 0) + 1

    def chk(self, cond, line, text):
        self.ok()
        if not cond:
            self.bad(line, text)
        return cond

    def on(self, base, ops=None):
        return [r for r in self.rows if r.base == base and (r.op not in PURE if ops is None else r.op in ops)]

    def extra(self, r, allow=()):
        """the guards of a row that are not implied by the loops it is in"""
        out = []
        for g in r.guards:
            if g in allow or g[0] == "lit" and g[1][0] in ("ge0", "eq0") and self.size1(g):
                continue
            if g[0] == "lit" and g[1][0] == "t" and g[1][1][:2] == ("call", "is_root_proc") and g[2]:
                continue
            out.append(g)
        return tuple(out)

    def size1(self, g):
        """an argument that is not empty: an empty one has nothing to trace"""
        c, d = lin(g[1][1])
        return any(a[:2] == ("call", "size") and a[2] is not None and a[2][0] == "l" and a[2][1].endswith("#") and filled(g, a[2]) for a in d)

    # ---- what a neighbour argument stands for
    def neighbours(self, v, line, dim):
        if v[0] == "call" and v[1] == "new" or v[:2] == ("new", "function"):
            v = v[2][0]
        if v[0] == "l" and v[1].endswith("#"):
            return ("given", v[1])
        if v[0] != "lambda" or v[1] not in self.C.lams:
            self.bad(line, f"the neighbour relation {show(v)} is not one this rule can read")
            return None
        i = v[1]
        if not hasattr(self, "nb"):
            self.nb = {}
        if i in self.nb:
            return self.nb[i]
        p0 = ("p", i, 0)
        ps = self.C.lams[i]
        rows = self.C.alts([(p.lits, p.ev, None, None) for p in ps], (), {})
        rets = {self.C.norm(p.ret[1], {}) if p.ret and p.ret[1] is not None else None for p in ps}
        self.nb[i] = r = self.relation(i, p0, rows, rets, line, dim)
        self.R.cov["relations"] = self.R.cov.get("relations", 0) + 1
        return r

    def relation(self, i, p0, rows, rets, line, dim):
        if len(rets) != 1 or None in rets:
            self.bad(line, "the neighbours of an element differ from case to case")
            return None
        L = next(iter(rets))
        if L[0] == "[]" and L[2] == p0:
            return self.links(L[1], line)
        rs = [r for r in rows if r.base == L and r.op not in PURE or r.args and r.args[0] == L and r.op == "set"]
        if L[0] != "l" or not rs:
            self.bad(line, f"the neighbours of an element are {show(L)}, not the faces of the cells around it")
            return None
        r = rs[0]
        txt = f"the neighbours of an element have to be all faces of all cells around it: {short(rs)}"
        ok = len(rs) == 1 and r.op == "insert" and len(r.args) == 1 and len(r.gens) == 2 and r.args[0] == r.gens[1] and not r.early and all(g == ("in", r.args[0], L, False) for g in r.guards)
        mesh = None
        if ok:
            a, b = r.gens
            ok = a[0] == b[0] == "e" and a[1][:2] == ("call", "side_of") and b[1][:2] == ("call", "sides")
            if ok and a[1][2] == p0:
                mesh = a[1][3]
                ok = len(mesh) == 1 and b[1][2] == a and b[1][3] == mesh
            elif ok:
                mesh = (a[1][2],)
                ok = a[1][3] == (("int", dim), p0) and b[1][2] == a[1][2] and b[1][3] == (("int", dim + 1), a)
        self.chk(ok, r.line, txt)
        return ("faces", mesh) if ok else None

    def links(self, L, line):
        rs = [r for r in self.rows if r.base and r.base[0] == "[]" and r.base[1] == L and r.op not in PURE]
        pairs = {(r.base[2], r.args[0]) for r in rs if r.op == "insert" and len(r.args) == 1}
        txt = f"the ends of every edge have to be linked both ways: {short(rs)}"
        if not self.chk(bool(rs) and all(r.op == "insert" and len(r.args) == 1 and not r.early and not self.extra(r) for r in rs), rs[0].line if rs else line, txt):
            return None
        if len(rs) == 1 and len(rs[0].gens) == 3:                        # all pairs of a set
            r = rs[0]
            g = r.gens
            ok = g[1][0] == g[2][0] == "e" and g[1][1] == g[2][1] and r.base[2] == g[1] and r.args[0] == g[2]
            self.chk(ok, r.line, txt)
            self.members(g[1][1], g[0], r.line)
            return ("links", L)
        ok = len(rs) == 2 and all(len(r.gens) == 1 and r.gens == rs[0].gens for r in rs)
        if ok:
            g = rs[0].gens[0]
            e0, e1 = ("[]", g, ("int", 0)), ("[]", g, ("int", 1))
            ok = pairs == {(e0, e1), (e1, e0)} and g[1] == ("m", "edges")
        self.chk(ok, rs[0].line, txt)
        return ("links", L)

    def members(self, S, tri, line):
        """the set S of the ids of the three corners of tri that were selected"""
        rs = self.on(S)
        ok = len(rs) == 1 and rs[0].op == "insert" and len(rs[0].gens) == 2 and rs[0].gens[0] == tri
        if ok:
            r = rs[0]
            w = r.gens[1]
            a = r.args[0]
            ok = a[0] == "[]" and (w[0] == "e" and w[1] == tri and a[2] == w or a[2][0] == "[]" and a[2][1] == tri and w == ("w", ("lit", ("ge0", ("lin", 2, ((a[2][2], -1),))), True)) and self.C.start.get(a[2][2]) == ("int", 0))
            ok = ok and all(g == ("in", a[2], a[1], True) for g in r.guards) and not r.early
        self.chk(ok, rs[0].line if rs else line, f"every selected corner of a triangle has to be linked: {short(rs)}")

    # ---- what enters
    def points(self, E, line):
        """the container of the points whose keys E holds"""
        rs = self.on(E)
        txt = f"every extracted point has to enter the tracing: {short(rs)}"
        if not self.chk(len(rs) == 1 and rs[0].op == "insert" and len(rs[0].gens) == 1 and len(rs[0].args) == 1 and not rs[0].early, rs[0].line if rs else line, txt):
            return None
        r = rs[0]
        g, a = r.gens[0], r.args[0]
        if g[0] == "e" and a == (".", g, "first"):
            self.chk(not self.extra(r), r.line, txt)
            return g[1]
        if g[0] == "e" and a == ("idx", g):
            self.chk(not self.extra(r), r.line, txt)
            return g[1]
        # a selection that is numbered as it is copied
        cp = [x for x in self.rows if x.op == "push_back" and x.gens == r.gens and x.args == (g,) and x.guards == r.guards and not x.early]
        inc = [x for x in self.rows if x.op == "set" and x.args[0] == a and x.gens == r.gens and x.guards == r.guards and x.args[1] == ("lin", 1, ((a, 1),))]
        mp = [x for x in self.rows if x.op == "set" and x.args[0][0] == "[]" and x.args[0][2] == ("idx", g) and x.args[1] == a and x.gens == r.gens and x.guards == r.guards]
        if self.chk(g[0] == "e" and len(cp) == 1 and len(inc) == 1 and len(mp) == 1 and self.rows.index(inc[0]) > max(self.rows.index(r), self.rows.index(mp[0])), r.line, txt + "; " + short(cp + inc + mp)):
            return cp[0].base
        return None

    # ---- pieces and curves
    def curves(self, dim, loops):
        for r in self.rows:
            if r.op == CC:
                self.R.cov["call sites"] = self.R.cov.get("call sites", 0) + 1
                self.neighbours(r.args[0], r.line, dim)
                self.chk(not self.extra(r) and not r.gens and not r.early, r.line, f"components are not extracted in every case: {short([r])}")
        for r in [r for r in self.rows if r.op == LC]:
            self.R.cov["call sites"] = self.R.cov.get("call sites", 0) + 1
            self.piece(r, dim, loops)

    def piece(self, r, dim, loops):
        C, N = r.args[:2]
        rel = self.neighbours(N, r.line, dim)
        pts = None
        if C[0] == "e" and C[1][:2] == ("call", CC):
            cn, E = C[1][3][:2]
            self.chk(self.neighbours(cn, r.line, dim) == rel, r.line, "components and their pieces follow different neighbour relations")
            pts = self.points(E, r.line)
            self.chk(r.gens == (C,) and not self.extra(r) and not r.early, r.line, f"every component has to be cut into its pieces: {short([r])}")
        elif C[0] == "l":
            rs = self.on(C)
            ok = len(rs) == 1 and rs[0].op == "insert" and len(rs[0].gens) == 2 and rs[0].args == ((".", rs[0].gens[1], "first"),) and not rs[0].early and not rs[0].guards
            ok = ok and rs[0].gens[1][1] == (".", rs[0].gens[0], "second")
            if self.chk(ok, r.line, f"a component has to hold all of its elements: {short(rs)}"):
                pts = rs[0].gens[1][1]
                self.chk(r.gens == rs[0].gens[:1] and not self.extra(r) and not r.early, r.line, f"every component has to be cut into its pieces: {short([r])}")
        else:
            self.bad(r.line, f"pieces of {show(C)}, which is not a component")
        if pts is None:
            return
        gl = ("e", ("call", LC, None, (C, N)), 0)
        ds = [d for d in self.rows if d.op == "decl" and "feature_curve_t" in self.C.types.get(d.args[0], "") and d.gens[-1:] == (gl,)]
        ds = [d for d in ds if self.on(d.args[0])] or ds
        if not self.chk(len(ds) == 1, r.line, "every piece has to become a curve of its own"):
            return
        d = ds[0]
        T = d.args[0]
        push = self.on(T)
        want = ("[]", pts, ("e", gl, 0))
        txt = f"the curve has to get the point of each element of the piece, in order: {short(push)}"
        self.chk(len(push) == 1 and push[0].op == "push_back" and push[0].args == (want,) and push[0].gens == d.gens + (("e", gl, 0),) and not push[0].early and self.extra(push[0]) == self.extra(d), push[0].line if push else d.line, txt)
        adds = [a for a in self.rows if a.args[:1] == (T,) and a.op in ("add", "push_back") and a.base is not None]
        txt = f"every piece has to be added to the result exactly once: {short(adds)}"
        if not self.chk(len(adds) == 1 and adds[0].gens == d.gens == r.gens + (gl,) and not adds[0].early and self.extra(adds[0]) == self.extra(d) == (), adds[0].line if adds else d.line, txt):
            return
        at = self.rows.index
        self.chk(not push or at(d) < at(push[0]) < at(adds[0]), adds[0].line, "the curve is added before it is complete")
        lp = [x for x in self.rows if x.op == "set" and x.args[0] == (".", T, "loop")]
        if loops or lp:
            ok = len(lp) == 1 and lp[0].gens == d.gens and self.extra(lp[0]) == () and at(lp[0]) < at(adds[0])
            v = lp[0].args[1] if lp else None
            ok = ok and v[:2] == ("call", "is_loop") and v[3][0] == gl and self.neighbours(v[3][1], d.line, dim) == rel
            self.chk(ok, lp[0].line if lp else d.line, f"a curve is a loop when the ends of its own piece are neighbours: {short(lp)}")
        self.result = adds[0].base
        self.R.cov["curves"] = self.R.cov.get("curves", 0) + 1


def short(rs):
    return "; ".join(str(r).replace(LC, "pieces").replace(CC, "components").replace(".operator()", "") for r in rs)[:420] or "nothing"


def offline(S):
    f, rows = S.f, S.rows
    P, N = [("l", p["n"] + "#") for p in f["params"]][:2]
    line = f["l"]
    at = rows.index
    un = [r for r in rows if r.op == "unite"]
    txt = f"every point has to be joined with each of its neighbours that was extracted: {short(un)}"
    uf = None
    if S.chk(len(un) == 1, line, txt):
        u = un[0]
        uf = u.base
        g = u.gens
        ok = len(g) == 2 and not u.early and g[0] == ("e", P, 0) and nbcall(g[1], N, (".", g[0], "first")) and set(u.args) == {(".", g[0], "first"), g[1]} and set(u.guards) <= {("in", g[1], P, True), ("eq",) + tuple(sorted(u.args, key=repr)) + (False,)} and ("in", g[1], P, True) in u.guards
        S.chk(ok, u.line, txt)
        ga = [r for r in rows if r.op == "gather" and P in r.args]
        S.chk(len(ga) == 1 and ga[0].args[1:3] == (P, P) and not ga[0].gens and not ga[0].guards and at(ga[0]) < at(u), ga[0].line if ga else line, "the points of all processes have to be gathered before they are joined")
        cl = [r for r in rows if r.base == P and r.op in MUT]
        S.chk(all(r.op == "clear" and not r.gens and [g[2] for g in r.guards if g[0] == "lit" and g[1][0] == "t" and g[1][1][:2] == ("call", "is_root_proc")] == [False] for r in cl), cl[0].line if cl else line, f"gathered points are dropped: {short(cl)}")
        put = [r for r in rows if r.op == "insert" and r.base and r.base[0] == "[]" and r.base[2][:3] == ("call", "find", uf)]
        txt = f"every point has to be filed under the root of its own component: {short(put)}"
        if S.chk(len(put) == 1, line, txt):
            p = put[0]
            S.chk(len(p.gens) == 1 and p.gens[0] == ("e", P, 0) and p.args == p.gens and p.base[2][3] == ((".", p.gens[0], "first"),) and not p.guards and not p.early, p.line, txt)
            sy = [r for r in rows if r.op == "sync" and r.base == uf]
            S.chk(any(at(u) < at(r) < at(p) and not r.guards and not r.gens for r in sy), p.line, "roots are read before the union-find is synchronised")
            rd = [r for r in rows if r.op == "redistribute"]
            lc = [r for r in rows if r.op == LC]
            S.chk(len(rd) == 1 and rd[0].args[1] == p.base[1] and not rd[0].guards and lc and lc[0].gens[0][:2] == ("e", rd[0].args[2]) and at(p) < at(rd[0]) < at(lc[0]), rd[0].line if rd else line, "the components that are redistributed have to be the ones that are traced")
    res = getattr(S, "result", None)
    if res:
        ga = [r for r in rows if r.op == "gather" and res in r.args]
        S.chk(len(ga) == 1 and not ga[0].guards and not ga[0].gens and ga[0].args[1:3] == (res, res), ga[0].line if ga else line, "the curves of all processes have to be gathered")
        S.chk(not S.C.noret and S.C.rets == {res}, line, "the gathered curves have to be returned")


def nbcall(g, N, x):
    """g runs over the neighbours of x"""
    return g[0] == "e" and (g[1] == ("call", "operator()", N, (x,)) or g[1] == ("call", N[1].rstrip("#"), None, (x,)))


def online(S):
    f, rows = S.f, S.rows
    tr, P, N, tag = [("l", p["n"] + "#") for p in f["params"]][:4]
    at = rows.index
    t = ("e", tr, 0)
    grow = [r for r in rows if r.base == t and r.op in ("push_back", "insert", "push_front")]
    if any(len(r.gens) == 4 for r in grow):             # both ends are handled by one loop
        S.C = Comp(S.C.F, f, 2)
        S.rows = rows = S.C.rows
        at = rows.index
        grow = [r for r in rows if r.base == t and r.op in ("push_back", "insert", "push_front")]
    alive = ("lit", ("t", (".", t, "complete")), False)
    if not grow:                        # continued in a helper that is not read: left undecided
        S.R.cov["not read"] = S.R.cov.get("not read", 0) + 1
        return
    S.chk(len(grow) == 2 and {r.op for r in grow} == {"push_back", "insert"}, f["l"], f"unfinished curves have to be continued at both ends: {short(grow)}")
    if len(grow) != 2:
        return
    seen = []
    mid = next((i for i in range(at(grow[0]), at(grow[1])) if rows[i].gens == (t,)), at(grow[0]) + 1)
    side = lambda r, x: (at(x) < mid) == (at(r) < mid)          # both belong to the continuation at the same end
    for r, end in zip(grow, ("back", "front")):
        n = r.gens[-1]
        cur = None
        ok = len(r.gens) == 3 and r.gens[0] == t and n[0] == "e" and n[1][0] == "call" and len(n[1][3]) == 1
        if ok:
            cur = n[1][3][0]
            ok = nbcall(n, N, cur) and S.extra(r) == tuple(sorted((("in", n, P, True), alive), key=repr)) and r.args[-1] == ("[]", P, n)
            ok = ok and (r.op == "push_back" and end == "back" or r.op == "insert" and end == "front" and "begin" in str(r.args[0]) and has(r.args[0], t))
        S.chk(ok, r.line, f"the {end} of a curve is continued by an extracted neighbour of its last element: {short([r])}")
        if not ok:
            continue
        sets = [x for x in rows if x.op == "set" and x.args[0] == cur and x.gens == r.gens and side(r, x)]
        S.chk(bool(sets) and all(x.args[1] == n and x.guards == r.guards for x in sets), r.line, f"the search has to go on from the element that was added: {short(sets)}")
        er = [x for x in rows if x.op == "erase" and x.base == P and x.gens == r.gens and x.args in ((n,), (("call", "find", P, (n,)),)) and x.guards == r.guards and side(r, x)]
        S.chk(len(er) == 1, r.line, f"a point that continues a curve has to leave the points that are left: {short(er)}")
        seen += er
        # one neighbour is added at a time, and the search ends only when there was none
        lv = [x for x in rows if x.op == "leave" and side(r, x)]
        S.chk(any(x.gens == r.gens and x.guards == r.guards for x in lv), r.line, f"the search has to turn to the neighbours of the element that was added: {short(lv)}")
        w = r.gens[1]
        out = [x for x in lv if x.gens == r.gens[:2]]
        if w[0] == "w" and w[1] == ("t", True):
            hs = [[g[1][1] for g in x.guards if g[0] == "lit" and g[1][0] == "t" and not g[2] and g not in r.guards] for x in out]
        else:
            hs = [[w[1][1][1]]] if w[0] == "w" and w[1][0] == "lit" and w[1][1][0] == "t" and w[1][2] and not out else [[]]
        ok = len(hs) == 1 and len(hs[0]) == 1
        if ok:
            h = [x for x in rows if x.op == "set" and x.args[0] == hs[0][0] and side(r, x)]
            ok = all(x.args[1] in (("int", 1), ("bool", True)) and x.guards == r.guards for x in h if x.gens == r.gens) and any(x.gens == r.gens for x in h)
            ok = ok and any(x.gens == r.gens[:2] and x.args[1] in (("int", 0), ("bool", False)) for x in h) and all(x.gens in (r.gens, r.gens[:2], (t,)) for x in h)
        S.chk(ok, r.line, f"the search has to go on as long as an extracted neighbour is found, and to end then: {short(out)}")
        st_ = [x for x in rows if x.op == "set" and x.args[0] == cur and x.gens == (t,)]
        want = [x for x in rows if x.op == "set" and x.args[1] == ("call", end, t, ()) and x.gens == (t,)]
        okc = False
        if want:
            term = want[0].args[0]
            okc = any(at(want[0]) < at(x) < at(r) and has(x.args[1], (".", term, "tag")) and has(x.args[1], tag if True else None) or has(x.args[1], (".", term, "tag")) and at(want[0]) < at(x) < at(r) for x in st_)
        else:
            okc = any(has(x.args[1], (".", ("call", end, t, ()), "tag")) and at(x) < at(r) for x in st_)
        S.chk(okc, r.line, f"continuing at the {end} has to start from the {end} of the curve: {short(want + st_)}")
    S.chk(sum(1 for x in rows if x.op == "erase" and x.base == P) == 2, f["l"], "points that continue a curve are erased exactly once at each end")
    done = [x for x in rows if x.op == "set" and x.args[0] == (".", t, "complete")]
    flag = [x for x in rows if x.op == "set" and x.args[1] == ("int", 1) and x.gens == grow[0].gens]
    ok = len(done) == 1 and done[0].args[1] in (("int", 1), ("bool", True)) and done[0].gens == (t,)
    ok = ok and any(g[0] == "lit" and not g[2] and g[1][0] == "t" and any(x.args[0] == g[1][1] for x in flag) for g in done[0].guards)
    if ok:
        fl = {g[1][1] for g in done[0].guards if g[0] == "lit" and not g[2] and g[1][0] == "t"} & {x.args[0] for x in flag}
        ok = len([g for g in S.extra(done[0]) if g != alive]) <= len(fl)
        for r in grow:                  # every continuation is remembered, and none forgets another
            mine = [x for x in rows if x.op == "set" and x.args[0] in fl and x.gens == r.gens and side(r, x)]
            ok = ok and bool(mine) and all(x.args[1] in (("int", 1), ("bool", True)) for x in mine) and any(x.guards == r.guards for x in mine)
    S.chk(ok, f["l"], f"a curve is complete exactly when nothing continued it: {short(done)}")
    S.chk(all(max(at(g) for g in grow) < at(x) for x in rows if x.op == CC), f["l"], "new curves are built before the existing ones are continued")
    cl = [x for x in rows if x.op == "clear" and x.base == P]
    last = max([at(x) for x in rows if x.op in ("add",) and x.base == tr] or [0])
    S.chk(len(cl) == 1 and not S.extra(cl[0]) and not cl[0].gens and at(cl[0]) > last, f["l"], "the points of a step have to be cleared after they were traced")
    S.chk(getattr(S, "result", None) == tr, f["l"], "new curves have to be added to the curves of the tracker")


def use(S, dim):
    """the calls of the tracing functions in the trackers"""
    for r in S.rows:
        if r.op not in (OFF, ON):
            continue
        S.R.cov["call sites"] = S.R.cov.get("call sites", 0) + 1
        i = 0 if r.op == OFF else 1
        S.chk(r.args[i] == ("m", "discrete_critical_points"), r.line, f"the points that are traced are {show(r.args[i])}, not the extracted ones")
        rel = S.neighbours(r.args[i + 1], r.line, dim)
        S.chk(rel is not None and rel[0] == "faces", r.line, "the neighbours of an element have to be the faces of the cells around it")
        if r.op == ON:
            S.chk(r.args[0] == ("m", "traced_critical_points"), r.line, f"the curves that are continued are {show(r.args[0])}")
            tg = r.args[3]
            ok = tg[0] == "lambda" and tg[1] in S.C.lams
            if ok:
                p0 = ("p", tg[1], 0)
                vs = {S.C.norm(p.ret[1], {}) if p.ret else None for p in S.C.lams[tg[1]]}
                ok = len(vs) == 1 and None not in vs
                v = next(iter(vs))
                ok = ok and (v == p0 or v[0] == "new" and rel is not None and v[2] == (rel[1][0], ("int", dim), p0))
                S.chk(ok, r.line, f"a tag has to be turned back into the element it came from, not {show(v) if v else 'nothing'}")
        else:
            ad = [x for x in S.rows if x.op in ("add",) and x.args and x.args[0][:2] == ("call", OFF)]
            S.chk(len(ad) == 1 and ad[0].base == ("m", "traced_critical_points"), r.line, "the curves have to be added to the curves of the tracker exactly once")


def cca(S):
    rows = S.rows
    N, Q = [("l", p["n"] + "#") for p in S.f["params"]][:2]
    ad = [r for r in rows if r.op == "add"]
    un = [r for r in rows if r.op == "unite"]
    txt = f"every qualified element has to enter the union-find: {short(ad)}"
    if S.chk(len(ad) == 1, S.f["l"], txt):
        a = ad[0]
        S.chk(a.gens == (("e", Q, 0),) and a.args == a.gens and not a.guards and not a.early, a.line, txt)
    txt = f"every element has to be joined with each of its neighbours that is qualified: {short(un)}"
    if S.chk(len(un) == 1, S.f["l"], txt) and ad:
        u = un[0]
        g = u.gens
        ok = len(g) == 2 and g[0] == ("e", Q, 0) and nbcall(g[1], N, g[0]) and set(u.args) == set(g) and not u.early and u.base == ad[0].base
        ok = ok and len(u.guards) == 1 and u.guards[0] in (("in", g[1], u.base, True), ("in", g[1], Q, True))
        S.chk(ok and rows.index(ad[0]) < rows.index(u), u.line, txt)
        gs = {v for v in S.C.rets}
        S.chk(not S.C.noret and gs == {("call", "get_sets", u.base, ())}, S.f["l"], "the sets of the union-find have to be returned")


def sets(S):
    res = ("l", S.f["params"][0]["n"] + "#")
    rs = S.on(res)
    txt = f"elements with the same root have to form one set each: {short(rs)}"
    if not S.chk(len(rs) == 1 and rs[0].op == "push_back" and len(rs[0].gens) == 1 and not rs[0].guards and not rs[0].early and rs[0].args == ((".", rs[0].gens[0], "second"),), S.f["l"], txt):
        return
    M = rs[0].gens[0][1]
    ms = [r for r in S.rows if r.base and r.op not in PURE and (r.base == M or r.base[0] == "[]" and r.base[1] == M)]
    e = ("e", ("m", "eles"), 0)
    S.chk(len(ms) == 1 and ms[0].gens == (e,) and ms[0].args == (e,) and ms[0].op == "insert" and ms[0].base == ("[]", M, ("call", "find", None, (e,))) and not ms[0].guards and not ms[0].early, ms[0].line if ms else S.f["l"], f"elements have to be filed under their own root: {short(ms)}")


def isroot(v, i):
    return v == ("call", "find", None, (i,))


def slot(v):
    """the element whose parent v is"""
    if v[0] == "[]" and v[1] == ("m", "id2parent"):
        return v[2]
    if v[0] == "." and v[2] == "second" and v[1][:3] == ("call", "find", ("m", "id2parent")):
        return v[1][3][0]
    return None


def unite(S):
    """on every path the root of one side gets the root of the other as its parent"""
    i, j = [("l", p["n"] + "#") for p in S.f["params"]][:2]
    n = 0
    for p in S.C.A.run(S.f):
        w = [(slot(st(e[1])), st(e[2]), e[-1]) for e in p.ev if e[0] == "set" and slot(st(e[1])) is not None]
        n += 1
        ri, rj = ("call", "find", None, (i,)), ("call", "find", None, (j,))
        same = any(S.C.guard(l, {})[0] == "eq" and set(S.C.guard(l, {})[1:3]) == {ri, rj} and S.C.guard(l, {})[3] for l in p.lits)
        S.chk(same and not w or len(w) == 1 and {w[0][0], w[0][1]} == {ri, rj}, w[0][2] if w else S.f["l"], "joining two elements has to hang the root of one below the root of the other, and nothing else: " + "; ".join(f"parent of {show(a)} = {show(b)}" for a, b, _ in w))
    S.R.need(n, f"{S.q} has no path")


def chain(v, i):
    """v is i or an ancestor of i"""
    while v != i:
        x = slot(v)
        if x is None:
            return False
        v = x
    return True


def find(S):
    """the search climbs from parent to parent, shortens paths only to ancestors, and stops at an element that is its own parent"""
    i = ("l", S.f["params"][0]["n"] + "#")
    ps = S.C.A.run(S.f)
    loops = [e for p in ps for e in p.ev if e[0] == "loop"]
    wh = {st(e[1][1]) for e in loops if e[1][0] == "while"}
    if not S.chk(len(loops) >= 1 and len(wh) == 1, S.f["l"], "the root is searched by climbing to the parent until an element is its own parent"):
        return
    l = next(iter(wh))
    c, d = lin(l[1][1]) if l[0] == "lit" and l[1][0] == "eq0" else (1, {})
    x = next((a for a in d if slot(a) is None), None)
    S.chk(not l[2] and c == 0 and len(d) == 2 and x is not None and any(slot(a) is not None and chain(a, x) for a in d), loops[0][-1], f"the search goes on while the element is not its own parent, not while {showlit(l) if l[0] == 'lit' else l}")
    refs = {v["id"]: v for n in s.walk(S.f["body"]) if n["k"] == "DeclStmt" for v in n.get("c", []) + n.get("decls", []) if v and v.get("t", "").endswith("&")}
    for n in s.walk(S.f["body"]):
        if n["k"] == "WhileStmt" and any(y["k"] == "DeclRefExpr" and y.get("id") in refs for y in s.walk(n["cond"])):
            for e in loops:
                for lits, ev, ret, brk in e[2]:
                    w = [(st(a[1]), st(a[2])) for a in ev if a[0] == "set"]
                    mv = max([k for k, a in enumerate(w) if a[0] == x] or [-1])
                    S.chk(mv < 0 or any(slot(a[0]) is not None for a in w[mv + 1:]), e[-1], "the parent the search compares with is that of an element it has already left")
    for e in loops:
        for lits, ev, ret, brk in e[2]:
            for w in ev:
                if w[0] != "set":
                    continue
                a, b = st(w[1]), st(w[2])
                if a == x:
                    S.chk(chain(b, x) and b != x, w[-1], f"the search has to continue at an ancestor, not at {show(b)}")
                elif slot(a) is not None:
                    S.chk(chain(slot(a), x) and chain(b, slot(a)) and b != slot(a), w[-1], f"the parent of {show(slot(a))} becomes {show(b)}, which is not an ancestor")
    S.chk(all(any(w[0] == "set" and st(w[1]) == x for w in ev) for e in loops for _, ev, ret, brk in e[2]), S.f["l"], "the search has to climb in every round")
    for p in ps:
        r = st(p.ret[1]) if p.ret and p.ret[1] is not None else None
        S.chk(r == x, S.f["l"], f"the root is returned, not {show(r)}")


def start(S):
    """an element starts as its own parent"""
    i = ("l", S.f["params"][0]["n"] + "#")
    for p in S.C.A.run(S.f):
        gs = [S.C.guard(l, {}) for l in p.lits]
        known = any(g[0] == "in" and g[1] == i and g[3] for g in gs) or any(g[0] == "lit" and g[1][0] == "t" and g[1][1][:2] == ("call", "has") and g[2] for g in gs)
        ev = [(e[1], st(e[2]), [st(x) for x in e[3]]) for e in p.ev if e[0] == "call"]
        ins = [a for n, b, a in ev if b == ("m", "eles") and n in ("insert", "emplace")]
        par = [a for n, b, a in ev if b == ("m", "id2parent") and n in ("insert", "emplace")] + [st(e[2]) for e in p.ev if e[0] == "set" and slot(st(e[1])) == i]
        ok = len(ins) <= 1 and len(par) <= 1 and all(flat(a) == [i] for a in ins) and all(flat(a) in ([i, i], [i]) for a in par)
        S.chk(ok and (known or ins and par), S.f["l"], "an element that is added has to be remembered and to be its own parent")


def flat(v):
    """the arguments of nested constructors"""
    if isinstance(v, list):
        return [y for x in v for y in flat(x)]
    if v[0] == "new":
        return [y for x in v[2] for y in flat(x)]
    if v[:2] == ("call", "make_pair") or v[0] == "call" and v[1] in ("pair", "tie"):
        return [y for x in v[3] for y in flat(x)]
    return [v]


def known(S):
    i = ("l", S.f["params"][0]["n"] + "#")
    v = {S.C.guard(r, {}) if r[0] == "lit" else r for r in S.C.rets}
    S.chk(not S.C.noret and v == {("in", i, ("m", "eles"), True)}, S.f["l"], f"an element is known exactly when it was added: {v}")


def whole(S):
    c = [r for r in S.rows if r.op == "get_sets" and r.args and r.args[0] in S.C.rets]
    S.chk(len(c) == 1 and not c[0].guards and len(S.C.rets) == 1 and not S.C.noret, S.f["l"], "the sets that were collected have to be returned")


def reset(S):
    rs = [r for r in S.rows if r.op == "set" and r.args[0][0] in ("[]", "e")]
    g = ("e", ("m", "id2parent"), 0)
    S.chk(len(rs) == 1 and rs[0].gens == (g,) and rs[0].args == (g, ("idx", g)) and not rs[0].guards and not rs[0].early, S.f["l"], f"every element starts as its own parent: {short(rs)}")


def ctor(S):
    at = [r.op for r in S.rows]
    n = ("l", S.f["params"][0]["n"] + "#")
    rz = [r for r in S.rows if r.op == "resize" and r.base == ("m", "id2parent")]
    S.chk(len(rz) == 1 and rz[0].args[0] == n and "reset" in at and at.index("reset") > S.rows.index(rz[0]), S.f["l"], f"the union-find has to be set up for all of its elements: {short(rz)}")


def pieces(S):
    """connected_component_to_linear_components"""
    rows, f = S.rows, S.f
    K, N = [("l", p["n"] + "#") for p in f["params"]][:2]
    at = rows.index
    cc = [r for r in rows if r.op == CC]
    if not S.chk(len(cc) == 1 and not S.extra(cc[0]) and not cc[0].gens and cc[0].args[1][0] == "l", f["l"], "the nodes of a component that do not branch are split into their own components"):
        return
    O = cc[0].args[1]
    g0 = ("e", K, 0)
    ins = S.on(O)
    ok = len(ins) == 1 and ins[0].op == "insert" and ins[0].args == (g0,) and ins[0].gens == (g0,) and not ins[0].early
    ex = S.extra(ins[0]) if ok else ()
    V = None
    if ok and len(ex) == 1 and ex[0][0] == "lit":
        c, d = lin(ex[0][1][1])
        a = next(iter(d))
        ok = len(d) == 1 and (a[:2] == ("call", "size") or a[0] == "l") and ex[0][1][0] == "ge0" and ex[0][2] and (c, d[a]) == (2, -1)
        V = a[2] if a[0] == "call" and len(a) > 2 else a
    else:
        ok = False
    S.chk(ok, ins[0].line if ins else f["l"], f"exactly the nodes with at most two neighbours in the component continue a curve: {short(ins)}")
    special = None
    if V is not None:
        vs = S.on(V)
        n = ("e",)
        if vs:
            ok = len(vs) == 1 and vs[0].op in ("push_back", "insert") and vs[0].args == vs[0].gens[1:]
        else:                                   # a counter
            vs = [r for r in rows if r.op == "set" and r.args[0] == V]
            ok = len(vs) == 2 and vs[0].args[1] == ("int", 0) and vs[0].gens == (g0,) and vs[1].args[1] == ("lin", 1, ((V, 1),))
            vs = vs[1:]
        ok = ok and len(vs[0].gens) == 2 and vs[0].gens[0] == g0 and nbcall(vs[0].gens[1], N, g0) and not vs[0].early
        if ok:
            n = vs[0].gens[1]
            ok = set(S.extra(vs[0])) == {("in", n, K, True), ("eq",) + tuple(sorted((n, g0), key=repr)) + (False,)}
        S.chk(ok, vs[0].line if vs else f["l"], f"a node's degree counts its neighbours in the component other than itself: {short(vs)}")
        sp = [r for r in rows if r.op == "insert" and r.args == (g0,) and r.gens == (g0,) and r.base != O]
        S.chk(len(sp) == 1 and set(S.extra(sp[0])) == {opp(g) for g in ex}, sp[0].line if sp else f["l"], f"the other nodes are the ones that branch: {short(sp)}")
        special = sp[0].base if sp else None
    # the neighbours within the ordinary nodes
    lam = cc[0].args[0]
    if S.chk(lam[0] == "lambda" and lam[1] in S.C.lams, cc[0].line, "the neighbours of the nodes that do not branch cannot be read"):
        ps = S.C.lams[lam[1]]
        p0 = ("p", lam[1], 0)
        rs = S.C.alts([(p.lits, p.ev, None, None) for p in ps], (), {})
        rets = {S.C.norm(p.ret[1], {}) if p.ret and p.ret[1] is not None else ("void",) for p in ps}
        M = next(iter(rets))
        init = [r for r in rs if r.op == "set" and r.args[0] == M]
        ok = len(rets) == 1 and M[0] == "l"
        er = [r for r in rs if r.base == M and r.op not in PURE]
        if ok and init:        # a copy that loses nodes
            ok = len(init) == 1 and nbcall(("e", init[0].args[1]), N, p0) and bool(er)
            for r in er:
                ok = ok and r.op == "erase"
            gs = {frozenset((g[0], g[2], g[3]) for g in r.guards if g[0] == "in") for r in er if r.op == "erase"}
            keep = [r for r in rs if r.op == "set" and r.gens and r.args[0] != M and r.args[1][0] == "lin"]
            kg = {frozenset((g[0], g[2], g[3]) for g in r.guards if g[0] == "in") for r in keep}
            w = [r.gens[-1] for r in er if r.gens]
            ok = ok and len(w) == len(er) and all(x[0] == "w" and x[1][0] == "lit" and x[1][1][0] == "eq0" and not x[1][2] and any(a[:3] == ("call", "end", M) for a in lin(x[1][1][1])[1]) for x in w)
            if ok:
                ok = ok and kg in ({frozenset({("in", K, True), ("in", special, False)})}, {frozenset({("in", O, True)})})
        elif ok:               # a new set that gets nodes
            ok = len(er) == 1 and er[0].op == "insert" and er[0].args == er[0].gens and len(er[0].gens) == 1 and nbcall(er[0].gens[0], N, p0)
            ok = ok and {(g[0], g[2], g[3]) for g in er[0].guards} in ({("in", K, True), ("in", special, False)}, {("in", O, True)})
        S.chk(ok, cc[0].line, f"nodes that do not branch are joined with their neighbours that do not branch: {short(er)}")
    # the walk
    c = ("e", ("call", CC, None, cc[0].args), 0)
    out = [r for r in rows if r.op == "push_back" and r.gens == (c,) and r.args and r.args[0][0] == "new" and r.base in S.C.rets]
    txt = f"every set of nodes that do not branch has to become one piece: {short(out)}"
    if not S.chk(len(out) == 1 and not S.extra(out[0]) and not out[0].early, out[0].line if out else f["l"], txt):
        return
    S.chk(not S.C.noret and S.C.rets == {out[0].base}, f["l"], "the pieces have to be returned")
    v = out[0].args[0]
    while v[0] == "new" and len(v[2]) == 1:
        v = v[2][0]
    ok = v[0] == "new" and len(v[2]) == 2 and [x[1] for x in v[2]] == ["begin", "end"] and v[2][0][2] == v[2][1][2]
    if not S.chk(ok, out[0].line, f"the piece holds the whole walk, in order: {show(v)}"):
        return
    T = v[2][0][2]
    ws = S.on(T, {"push_back", "push_front", "insert", "erase", "clear", "pop_back", "pop_front"})
    seed = ("call", "begin", c, ())
    first = [r for r in ws if r.gens == (c,)]
    S.chk(len(first) == 1 and first[0].op in ("push_back", "push_front") and first[0].args == (seed,) and not S.extra(first[0]), out[0].line, f"the walk starts with one node of the set: {short(first)}")
    rest = [r for r in ws if r.gens != (c,)]
    cur = rest[0].args[0] if rest else None
    S.chk({r.op for r in rest} == {"push_back", "push_front"} and all(r.args == (cur,) for r in rest), out[0].line, f"the walk goes one way at the back and the other way at the front: {short(rest)}")
    vis = None
    for r in rest:
        gi = [g for g in r.guards if g[0] == "in"]
        ok = len(gi) == 1 and gi[0][1] == cur and gi[0][3] is False
        vis = gi[0][2] if ok else vis
        S.chk(ok and not [g for g in r.guards if g[0] == "eq"], r.line, f"a node joins the walk exactly when it was not visited: {short([r])}")
    if vis is None:
        return
    vi = S.on(vis)
    S.chk(len(vi) == 2 and all(r.op == "insert" for r in vi) and vi[0].args == (seed,) and vi[1].args == (cur,) and {g for g in vi[1].guards if g[0] == "in"} == {("in", cur, vis, False)}, rest[0].line, f"exactly the nodes that joined the walk are visited: {short(vi)}")
    mv = [r for r in rows if r.op == "set" and r.args[0] == cur]
    sd = {}
    step = []
    for r in mv:
        if r.args[1][0] == "call" and r.args[1][1] in ("begin", "rbegin", "cbegin", "crbegin"):
            sd.setdefault(r.args[1][1].replace("c", ""), []).append(r)
        else:
            step.append(r)
    S.chk(set(sd) == {"begin", "rbegin"} and len({r.args[1][2] for rs in sd.values() for r in rs}) == 1, f["l"], f"the two walks start at the first and the last neighbour of the seed: {short(mv)}")
    if set(sd) == {"begin", "rbegin"}:
        A = sd["begin"][0].args[1][2]
        sa = S.on(A, {"insert", "erase", "clear", "push_back"})
        ok = len(sa) == 1 and sa[0].op == "insert" and len(sa[0].gens) == 2 and sa[0].gens[0] == c and nbcall(sa[0].gens[1], N, seed) and sa[0].args == sa[0].gens[1:] and not sa[0].early
        if ok:
            n = sa[0].gens[1]
            ok = {g for g in S.extra(sa[0])} in [{("in", n, X, True), ("eq",) + tuple(sorted((n, seed), key=repr)) + (False,)} for X in (O, c)]
        S.chk(ok, sa[0].line if sa else f["l"], f"the walks start at the neighbours of the seed that do not branch: {short(sa)}")
        d = next((g[1][1][1] for g in rest[0].gens if g[0] == "w" and g[1][0] == "lit" and g[1][1][0] in ("ge0", "eq0")), None)
        d = next((a for a in lin(d)[1] if a[0] == "l"), None) if d else None
        start = [next((r.args[1][1] for r in reversed(mv) if r not in step and when(r, d, k)), None) for k in (0, 1)]
        ways = [{r.op for r in rest if when(r, d, k)} for k in (0, 1)]
        S.chk(d is not None and {x.replace("c", "") if x else x for x in start} == {"begin", "rbegin"} and {frozenset(w) for w in ways} == {frozenset(("push_back",)), frozenset(("push_front",))}, rest[0].line, f"each of the two walks has to start at its own neighbour and stay at its own end of the piece: {start}, {[sorted(w) for w in ways]}")
        inc = [r for r in rows if r.op == "set" and r.args[0] == d and r.args[1] == ("lin", 1, ((d, 1),))]
        okd = d is not None and S.C.start.get(d) == ("int", 0) and len(inc) == 1 and all(when(rest[0] if when(rest[0], d, k) else rest[1], d, k) for k in (0, 1))
        S.chk(okd, rest[0].line, f"both directions have to be walked: {short(inc)}")
        if okd:
            sz = ("call", "size", A, ())
            for r in mv:
                if r not in step:
                    S.chk(not when(r, sz, 0) and when(r, sz, 2) and (r.args[1][1] in ("rbegin", "crbegin") or when(r, sz, 1)), r.line, f"a walk starts whenever the seed has a neighbour to start at: {short([r])}")
            S.chk(when(inc[0], sz, 2), inc[0].line, f"a seed with two neighbours is walked both ways: {short(inc)}")
        walk = rest[0].gens
        lv = [r for r in rows if r.op == "leave" and r.gens == walk]
        fl = {g[1][1] for r in lv for g in r.guards if g[0] == "lit" and g[1][0] == "t" and not g[2]} | ({walk[-1][1][1][1]} if walk[-1][0] == "w" and walk[-1][1][0] == "lit" and walk[-1][1][1][0] == "t" else set())
        ok = len(fl) == 1 and walk[-1][0] == "w" and (walk[-1][1] == ("t", True) and len(lv) == 1 or not lv)
        if ok:
            fg = next(iter(fl))
            on = [r for r in rows if r.op == "set" and r.args == (fg, ("int", 1)) and r.gens[:len(walk)] == walk and len(r.gens) > len(walk)]
            off = [r for r in rows if r.op == "set" and r.args == (fg, ("int", 0)) and r.gens == walk]
            ok = len(off) == 1 and len(on) == len(step) and [(r.gens, r.guards) for r in on] == [(r.gens, r.guards) for r in step] and rows.index(off[0]) < rows.index(on[0])
        S.chk(ok, rest[0].line, f"the walk ends exactly when no unvisited neighbour is left: {short(lv)}")
    for r in step:
        n = r.args[1]
        ok = n[0] == "e" and nbcall(n, N, cur) and n in r.gens
        ok = ok and {g for g in r.guards if g[0] in ("in", "eq")} == {("in", n, c, True), ("in", n, vis, False), ("eq",) + tuple(sorted((n, cur), key=repr)) + (False,)} or ok and {g for g in r.guards if g[0] in ("in", "eq")} == {("in", n, c, True), ("in", n, vis, False)}
        S.chk(ok, r.line, f"the walk goes on at any unvisited neighbour in the set: {short([r])}")
    S.chk(bool(step), f["l"], "the walk never goes on")


def when(r, d, k):
    """the row may happen when d is k"""
    for g in r.guards + tuple(x[1] for x in r.gens if x[0] == "w"):
        if g[0] == "lit" and g[1][0] in ("ge0", "eq0"):
            c, m = lin(g[1][1])
            if list(m) == [d] and ((c + m[d] * k >= 0) if g[1][0] == "ge0" else (c + m[d] * k == 0)) != g[2]:
                return False
    return True


def isloop(S):
    g = ("l", S.f["params"][0]["n"] + "#")
    N = ("l", S.f["params"][1]["n"] + "#")
    fr, bk = ("call", "front", g, ()), ("call", "back", g, ())
    n = 0
    for p in S.C.A.run(S.f):
        v = S.C.norm(p.ret[1], {}) if p.ret and p.ret[1] is not None else None
        gs = [S.C.guard(l, {}) for l in p.lits]
        if v in (("int", 0), ("int", 1), ("bool", False), ("bool", True)):
            mem = [x for x in gs if x[0] == "in"]
            if mem:
                S.chk(len(mem) == 1 and ends(mem[0], fr, bk, N) and mem[0][3] == bool(v[1]), S.f["l"], "a piece is a loop exactly when its ends are neighbours")
                n += 1
            else:
                k = possible(gs, g)
                S.chk(not v[1] and k is not None and max(k) <= 1, S.f["l"], f"pieces of {'more than one node' if k is None or max(k) > 1 else 'one node'} are called {'loops' if v[1] else 'no loops'} whatever their ends are")
        else:
            m = S.C.guard(v, {}) if v and v[0] == "lit" else None
            ok = m is not None and m[0] == "in" and ends(m, fr, bk, N) and m[3]
            k = possible(gs, g)
            S.chk(ok and (k is None or max(k) >= 9 and min(k) >= 2), S.f["l"], f"a piece is a loop exactly when its ends are neighbours, and single nodes are none: {shg(m) if m else show(v)} for {k} nodes")
            n += 1
    S.R.need(n, "is_loop never looks at the neighbours")


def ends(m, fr, bk, N):
    return any(m[1] == b and nbcall(("e", m[2]), N, a) for a, b in ((fr, bk), (bk, fr)))


def possible(gs, g):
    """the sizes up to 9 that the literals leave"""
    out = []
    for k in range(0, 10):
        ok = True
        for x in gs:
            if x[0] != "lit" or x[1][0] not in ("ge0", "eq0"):
                continue
            c, d = lin(x[1][1])
            if list(d) == [("call", "size", g, ())]:
                v = c + list(d.values())[0] * k
                ok = ok and ((v >= 0) if x[1][0] == "ge0" else (v == 0)) == x[2]
        if ok:
            out.append(k)
    return out or None


def one(S, kind, n, cls, used):
    dim = 3 if "critical_point_tracker_3d" in cls else 2
    if kind == "trace":
        S.curves(dim, used)
        if n == OFF:
            offline(S)
        elif n == ON:
            online(S)
        else:
            use(S, dim)
    else:
        kind(S)


def run(R):
    F = s.main_facts()
    R.cov.update({"functions": 0, "call sites": 0, "relations": 0, "curves": 0, "obligations": 0})
    tmpl = {}
    todo = []
    called = set()          # an old function that nothing calls need not set the loop flag
    for f in F.funcs:
        if not f.get("body") or not f["file"].startswith("include/ftk/") or "/legacy" in f["file"]:
            continue
        q = s.norm(f.get("q") or f["n"]).split("::")
        n, cls = q[-1].split("<")[0], q[-2] if len(q) > 1 else ""
        names = {s.callee_name(x) for x in s.walk(f["body"]) if "callee" in x}
        kind = None
        if n == CC and len(f["params"]) == 2:
            kind = cca
        elif n == LC:
            kind = pieces
        elif n == "is_loop":
            kind = isloop
        elif cls.split("<")[0] == "union_find" and n == "get_sets" and f["params"]:
            kind = sets
        elif cls.split("<")[0] in ("union_find", "simple_union_find") and n in ("unite", "find"):
            kind = unite if n == "unite" else find
        elif cls.split("<")[0] == "union_find" and n in ("has", "get_sets"):
            kind = known if n == "has" else whole
        elif cls.split("<")[0] == "union_find" and n == "add":
            kind = start
        elif cls.split("<")[0] == "simple_union_find" and n == "reset":
            kind = reset
        elif cls.split("<")[0] == "simple_union_find" and n == "simple_union_find" and f["params"]:
            kind = ctor
        elif names & {LC, OFF, ON}:
            kind = "trace"
        called |= names
        if kind:
            todo.append((f, n, cls, kind))
            if f["tmpl"] == "inst":
                tmpl[(f["file"], f["l"])] = True
    count = {}
    for f, n, cls, kind in todo:
        if f["tmpl"] == "pattern" and (f["file"], f["l"]) in tmpl:
            continue
        S = Site(R, F, f)
        R.cov["functions"] += 1
        count[n] = count.get(n, 0) + 1
        try:
            one(S, kind, n, cls, n in called)
        except (IndexError, StopIteration, TypeError, KeyError, AttributeError):
            S.bad(f["l"], "is not of the form this rule can read")
    R.need(count.get(OFF) and count.get(ON) and count.get(CC) and count.get(LC), "the tracing functions were not found")
    R.need(R.cov["call sites"] >= 10, "fewer tracing call sites than expected")
