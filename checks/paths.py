"""Path analysis over the exported AST: the paths through a function with the literals they assume, the calls they make in order and the state they leave.
Nothing is executed and nothing is handed to a solver: branches are split on canonical literals, loops are summarised by the paths of one pass."""
import os
import re
import srclib as s

WRAP = ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "CXXDefaultArgExpr", "CXXDefaultInitExpr")
CASTS = ("CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "CXXConstCastExpr", "CXXReinterpretCastExpr", "CXXDynamicCastExpr")
MAXP = 400


class Un(Exception):
    pass


def strip(n):
    while n and n["k"] in WRAP and len([x for x in n.get("c", []) if x]) == 1:
        n = [x for x in n["c"] if x][0]
    return n


# ---- values: ('int', n) | ('lin', c, ((atom, k), ...)) | any other tuple is an atom
def lin(v):
    if v[0] == "int":
        return v[1], {}
    if v[0] == "lin":
        return v[1], dict(v[2])
    return 0, {v: 1}


def mk(c, d):
    d = {a: k for a, k in d.items() if k}
    if not d:
        return ("int", c)
    if c == 0 and len(d) == 1 and list(d.values()) == [1]:
        return next(iter(d))
    return ("lin", c, tuple(sorted(d.items(), key=repr)))


def add(a, b, k=1):
    ca, da = lin(a)
    cb, db = lin(b)
    for t, x in db.items():
        da[t] = da.get(t, 0) + k * x
    return mk(ca + k * cb, da)


def mul(a, b):
    if b[0] == "int":
        a, b = b, a
    if a[0] == "int":
        c, d = lin(b)
        return mk(c * a[1], {t: x * a[1] for t, x in d.items()})
    return ("*",) + tuple(sorted((a, b), key=repr))


def bits(op, x, y):
    if x is not None and y is not None and x[0] == y[0] == "int" and op in ("|", "&", "<<", ">>", "^") and y[1] >= 0:
        return ("int", {"|": x[1] | y[1], "&": x[1] & y[1], "<<": x[1] << min(y[1], 64), ">>": x[1] >> y[1], "^": x[1] ^ y[1]}[op])
    return (op, x, y)


def show(v):
    if v is None:
        return "nothing"
    if v[0] == "int":
        return str(v[1])
    if v[0] == "lin":
        return " + ".join(([str(v[1])] if v[1] else []) + [(f"{k}*" if k != 1 else "") + show(a) for a, k in v[2]])
    if v[0] in ("m", "l", "g"):
        return v[1].split("#")[0]
    if v[0] == ".":
        return show(v[1]) + "." + v[2]
    if v[0] == "[]":
        return show(v[1]) + "[" + show(v[2]) + "]"
    if v[0] == "call":
        return (show(v[2]) + "." if v[2] else "") + v[1] + "(" + ", ".join(show(x) for x in v[3]) + ")"
    if v[0] == "lit":
        return showlit(v)
    if v[0] == "str":
        return '"' + str(v[1]) + '"'
    if not isinstance(v[0], str):
        return "(" + ", ".join(show(x) if isinstance(x, tuple) and x else str(x) for x in v) + ")"
    return v[0] + "(" + ", ".join(show(x) if isinstance(x, tuple) and x else str(x) for x in v[1:]) + ")"


# ---- literals: ('lit', form, positive): form ('ge0', value) value >= 0 over integers | ('eq0', value) | ('t', atom)
def lit(form, pos=True):
    if form[0] in ("ge0", "eq0") and form[1][0] == "int":
        r = form[1][1] >= 0 if form[0] == "ge0" else form[1][1] == 0
        return r == pos
    if form[0] == "ge0" and not pos:        # not (v >= 0)  <=>  -v - 1 >= 0
        return ("lit", ("ge0", add(("int", -1), form[1], -1)), True)
    if form[0] == "eq0":
        c, d = lin(form[1])
        k = sorted(d.items(), key=repr)[0][1]
        if k < 0:
            form = ("eq0", mul(("int", -1), form[1]))
    return ("lit", form, pos)


def neg(l):
    if isinstance(l, bool):
        return not l
    return lit(l[1], not l[2])


def showlit(l):
    f, p = l[1], l[2]
    if f[0] == "t":
        return ("" if p else "not ") + show(f[1])
    return show(f[1]) + (" >= 0" if f[0] == "ge0" else " == 0" if p else " != 0")


def implied(lits, l):
    """True / False when the literals decide l, else None"""
    if isinstance(l, bool):
        return l
    if l in lits:
        return True
    if neg(l) in lits:
        return False
    f, p = l[1], l[2]
    if f[0] == "t":
        return None
    c, d = lin(f[1])
    key = tuple(sorted(d.items(), key=repr))
    nkey = tuple(sorted(((a, -k) for a, k in d.items()), key=repr))
    lo, hi, ne = None, None, set()          # bounds of t = sum d
    for m in lits:
        if m[1][0] == "t":
            continue
        c2, d2 = lin(m[1][1])
        k2 = tuple(sorted(d2.items(), key=repr))
        if k2 == key:
            sgn = 1
        elif k2 == nkey:
            sgn = -1
        else:
            continue
        if m[1][0] == "ge0":
            if sgn == 1:
                lo = max(lo, -c2) if lo is not None else -c2
            else:
                hi = min(hi, c2) if hi is not None else c2
        elif m[2]:
            v = -c2 * sgn
            lo = v if lo is None else max(lo, v)
            hi = v if hi is None else min(hi, v)
        else:
            ne.add(-c2 * sgn)
    if len(d) == 1 and list(d.values()) == [1] and next(iter(d))[0] == "call" and next(iter(d))[1] in ("size", "length"):
        lo = 0 if lo is None else max(lo, 0)
    if len(d) == 1 and list(d.values()) == [-1] and next(iter(d))[0] == "call" and next(iter(d))[1] in ("size", "length"):
        hi = 0 if hi is None else min(hi, 0)
    while lo is not None and lo in ne:
        lo += 1
    while hi is not None and hi in ne:
        hi -= 1
    if f[0] == "ge0":
        if lo is not None and lo + c >= 0:
            return True
        if hi is not None and hi + c < 0:
            return False
        return None
    r = None
    if lo is not None and lo + c > 0 or hi is not None and hi + c < 0 or -c in ne:
        r = False
    elif lo is not None and lo == hi and lo + c == 0:
        r = True
    return None if r is None else r == p


class Path:
    __slots__ = ("env", "mem", "lits", "ev", "ret", "ver", "brk")

    def __init__(self):
        self.env, self.mem, self.lits, self.ev, self.ret, self.ver, self.brk = {}, {}, (), (), None, {}, None

    def copy(self):
        q = Path()
        q.env, q.mem, q.lits, q.ev, q.ret, q.ver, q.brk = dict(self.env), dict(self.mem), self.lits, self.ev, self.ret, dict(self.ver), self.brk
        return q

    def assume(self, l):
        r = implied(self.lits, l)
        if r is False:
            return None
        q = self.copy()
        if r is None:
            q.lits = q.lits + (l,)
        return q

    def key(self):
        return (self.ev, self.ret, self.brk, tuple(sorted(self.env.items(), key=repr)), tuple(sorted(self.mem.items(), key=repr)), tuple(sorted(self.ver.items(), key=repr)))


try:
    KNOWN = set(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_functions.txt")).read().split("\n"))
except OSError:
    KNOWN = None


def extracted(f):
    """a function the rules were not written for (a helper that was factored out): it is always followed"""
    return KNOWN is not None and f["file"].startswith(("include/ftk/", "src/")) and re.sub(r"<.*?>", "", s.norm(f["q"])) not in KNOWN


class An:
    split = False           # min and max are the one or the other of their operands, on paths of their own
    locals = False          # record assignments to local variables as events, too
    thisv = ("this",)       # the object whose method is followed

    def __init__(self, F, cls, event, inline, pure=(), depth=8):
        """event(name, base, args, node) -> anything truthy records a call; inline(function) -> follow it"""
        self.F, self.cls, self.event, self.inline, self.pure, self.maxdepth = F, cls, event, inline, set(pure), depth
        self.alias = {}
        self.lam, self.depth, self.inlined, self.nsplit = {}, 0, set(), 0
        self.bases = {}
        for r in F.records:
            self.bases.setdefault(s.norm(r["q"]), [s.norm(b) for b in r["bases"]])

    # ---- class lookup
    def chain(self, cls):
        out, todo = [], [cls]
        while todo:
            c = re.sub(r"<.*", "", todo.pop(0))
            if c not in out:
                out.append(c)
                todo += self.bases.get(c, [])
        return out

    def resolve(self, call, base):
        fid = call.get("fid")
        if fid is None:
            return None
        if call.get("virt") and not call.get("qualified") and base in (None, ("this",)):
            ids = {fid} | self.F.over_all(fid)
            c = [self.F.byid[i] for i in ids if i in self.F.byid]
            ch = self.chain(self.cls)
            c = [f for f in c if re.sub(r"<.*", "", f.get("cls", "")) in ch]
            c.sort(key=lambda f: ch.index(re.sub(r"<.*", "", f["cls"])))
            return c[0] if c else None
        return self.F.byid.get(fid)

    # ---- lvalues
    def root(self, v):
        while v[0] in (".", "[]"):
            v = v[1]
        return v

    def load(self, p, v):
        if v[0] in ("m", "l", ".", "[]"):
            if v in p.mem:
                return p.mem[v]
            n = p.ver.get(self.root(v), 0) + (p.ver.get(("m*",), 0) if self.root(v)[0] == "m" else 0)
            return v if not n else ("at", v, n)
        return v

    def store(self, p, v, x):
        for k in [k for k in p.mem if k != v and self.inside(k, v)]:
            del p.mem[k]
        if v[0] == "[]":
            r = self.root(v)
            p.ver[r] = p.ver.get(r, 0) + 1
        k = v
        while k[0] in (".", "[]"):
            k = k[1]
            if k in p.mem:              # the whole is the old value with this part replaced
                p.mem[k] = ("upd", p.mem[k], v, x)
        p.mem[v] = x

    def inside(self, k, v):
        while k[0] in (".", "[]"):
            k = k[1]
            if k == v:
                return True
        return False

    def touch(self, p, v):
        r = self.root(v)
        for r in (r,) + tuple(self.alias.get(r, ())):
            p.ver[r] = p.ver.get(r, 0) + 1
            for k in [k for k in p.mem if self.root(k) == r]:
                del p.mem[k]

    # ---- expressions: yield (path, value)
    def lval(self, p, n):
        n = strip(n)
        k = n["k"]
        if k == "DeclRefExpr":
            if n.get("dk") in ("enum", "tparm"):
                yield p, ("int", n["v"]) if n.get("v") is not None else ("g", n["n"])
                return
            if n.get("dk") in ("var", "parm"):
                yield p, p.env.get(n["id"]) or ("l", f"{n['n']}#{n['id']}")
                return
            yield p, ("g", n.get("q") or n["n"])
            return
        if k == "CXXThisExpr":
            yield p, self.thisv
            return
        if k in ("MemberExpr", "CXXDependentScopeMemberExpr"):
            c = [x for x in n.get("c", []) if x]
            if not c:
                yield p, ("m", n["n"]) if self.thisv == ("this",) else (".", self.thisv, n["n"])
                return
            for q, b in (self.expr(p, c[0]) if n.get("arrow") else self.lval(p, c[0])):
                if b is not None and b[0] == "new" and b[1] == "pair" and len(b[2]) == 2 and n["n"] in ("first", "second"):
                    yield q, b[2][n["n"] == "second"]
                    continue
                yield q, ("m", n["n"]) if b == ("this",) else (".", b, n["n"])
            return
        if k == "ArraySubscriptExpr":
            for q, b in self.expr(p, n["c"][0]):
                for r, i in self.expr(q, n["c"][1]):
                    yield r, ("[]", b, i)
            return
        if n.get("oop") == "[]" and len(n["c"]) == 2:
            for q, b in self.lval(p, n["c"][0]):
                for r, i in self.expr(q, n["c"][1]):
                    yield r, ("[]", b, i)
            return
        if k == "UnaryOperator" and n["op"] == "*":
            for q, b in self.expr(p, n["c"][0]):
                yield q, b if b[0] == "this" else ("[]", b, ("int", 0))
            return
        if k in CASTS and n.get("c"):
            yield from self.lval(p, n["c"][0])
            return
        yield from self.expr(p, n)

    def expr(self, p, n):
        n = strip(n)
        if n is None:
            yield p, None
            return
        k = n["k"]
        if n.get("v") is not None and k not in ("StringLiteral", "FloatingLiteral") and "callee" not in n:
            yield p, ("int", int(n["v"]))
            return
        if k == "StringLiteral":
            yield p, ("str", n.get("v"))
            return
        if k == "FloatingLiteral":
            v = n.get("v")
            yield p, ("int", int(v)) if v == int(v) else ("float", v)
            return
        if k in ("DeclRefExpr", "MemberExpr", "CXXDependentScopeMemberExpr", "ArraySubscriptExpr") or n.get("oop") == "[]" or k == "UnaryOperator" and n["op"] == "*":
            for q, v in self.lval(p, n):
                yield q, self.load(q, v)
            return
        if k == "CXXThisExpr":
            yield p, self.thisv
            return
        if k == "LambdaExpr":
            i = n.get("fid") or f"{n['l']}"
            self.lam[i] = (n, dict(p.env), dict(p.mem))
            yield p, ("lambda", i)
            return
        if k in ("BinaryOperator", "CompoundAssignOperator") or n.get("oop") in ("=", "+", "-", "*", "/", "<", ">", "<=", ">=", "==", "!=", "+=", "-=", "&&", "||") and len(n.get("c", [])) == 2:
            yield from self.binary(p, n, n.get("op") or n["oop"])
            return
        if k == "UnaryOperator" or n.get("oop") in ("++", "--", "!"):
            op = n.get("op") or n["oop"]
            if "++" in op or "--" in op:
                for q, v in self.lval(p, n["c"][0]):
                    old = self.load(q, v)
                    new = add(old, ("int", 1), 1 if "++" in op else -1)
                    q = q.copy()
                    self.store(q, v, new)
                    self.note(q, ("set", v, new, n["l"]))
                    yield q, old if op.startswith("p") else new
                return
            if op == "!":
                for q, l in self.cond(p, n["c"][0]):
                    yield q, ("int", int(not l)) if isinstance(l, bool) else neg(l)
                return
            if op == "-":
                for q, v in self.expr(p, n["c"][0]):
                    yield q, mul(("int", -1), v)
                return
            if op == "&":
                yield from self.lval(p, n["c"][0])
                return
            for q, v in self.expr(p, n["c"][0]):
                yield q, v if op == "+" else (op, v)
            return
        if k == "ConditionalOperator":
            for q, b in self.branch(p, n["c"][0]):
                yield from self.expr(q, n["c"][1 if b else 2])
            return
        if "callee" in n:
            yield from self.call(p, n)
            return
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr", "CXXUnresolvedConstructExpr", "ParenListExpr", "CXXStdInitializerListExpr"):
            c = [x for x in n.get("c", []) if x and x["k"] != "CXXDefaultArgExpr"]
            if len(c) == 1 and (n.get("copy") or k in ("CXXStdInitializerListExpr", "ParenListExpr") or "function<" in n.get("t", "")):
                yield from self.expr(p, c[0])
                return
            for q, a in self.args(p, c):
                yield q, ("new", re.sub(r"<.*", "", n.get("ctor") or "").split("::")[-1] if n.get("ctor") else "list", tuple(a))
            return
        if k in CASTS:
            yield from self.expr(p, n["c"][0])
            return
        c = [x for x in n.get("c", []) if isinstance(x, dict)]
        for q, a in self.args(p, c):
            yield q, (k,) + tuple(x for x in a if x)

    def args(self, p, c):
        if not c:
            yield p, []
            return
        for q, a in self.expr(p, c[0]):
            for r, b in self.args(q, c[1:]):
                yield r, [a] + b

    def binary(self, p, n, op):
        a, b = n["c"]
        if op == ",":
            for q, _ in self.expr(p, a):
                yield from self.expr(q, b)
            return
        if op in ("&&", "||", "<", ">", "<=", ">=", "==", "!="):
            for q, l in self.cond(p, n):
                yield q, ("int", int(l)) if isinstance(l, bool) else l
            return
        if op.endswith("=") :
            for q, v in self.expr(p, b):
                for r, t in self.lval(q, a):
                    if op != "=":
                        old = self.load(r, t)
                        v2 = {"+=": lambda: add(old, v), "-=": lambda: add(old, v, -1), "*=": lambda: mul(old, v)}.get(op, lambda: bits(op[:-1], old, v))()
                    else:
                        v2 = v
                    r = r.copy()
                    self.store(r, t, v2)
                    self.note(r, ("set", t, v2, n["l"]))
                    yield r, v2
            return
        for q, x in self.expr(p, a):
            for r, y in self.expr(q, b):
                yield r, add(x, y) if op == "+" else add(x, y, -1) if op == "-" else mul(x, y) if op == "*" else bits(op, x, y)

    def note(self, p, e):
        if self.locals or self.root(e[1])[0] != "l":
            p.ev = p.ev + (e,)

    def literal(self, v):
        if v is None:
            return None
        if v[0] == "int":
            return v[1] != 0
        if v[0] == "lit":
            return v
        if v[0] == "lin":
            return neg(lit(("eq0", v)))
        return lit(("t", v))

    def cond(self, p, n):
        """yield (path, literal or bool); short-circuit operators split the path"""
        n = strip(n)
        op = n.get("op") or n.get("oop")
        if op in ("&&", "||") and len(n.get("c", [])) == 2:
            for q, x in self.branch(p, n["c"][0]):
                if x == (op == "||"):
                    yield q, x
                else:
                    yield from self.cond(q, n["c"][1])
            return
        if op == "!" and n.get("c"):
            for q, l in self.cond(p, n["c"][0]):
                yield q, neg(l)
            return
        if op in ("<", ">", "<=", ">=", "==", "!=") and len(n.get("c", [])) == 2:
            fl = any("double" in (strip(x) or {}).get("t", "") or "float" in (strip(x) or {}).get("t", "") for x in n["c"])
            for q, x in self.expr(p, n["c"][0]):
                for r, y in self.expr(q, n["c"][1]):
                    d = add(x, y, -1)
                    if fl and op not in ("==", "!="):
                        yield r, lit(("t", ("<", x, y) if op in ("<", ">=") else ("<", y, x)), op in ("<", ">"))
                    elif op in ("==", "!="):
                        u, w = (x, y) if y[0] == "int" else (y, x)
                        if w[0] == "int" and w[1] in (0, 1) and u[0] == "lit":      # a truth value compared with a constant
                            yield r, u if (w[1] == 1) == (op == "==") else neg(u)
                        else:
                            l = lit(("eq0", d))
                            yield r, l if op == "==" else neg(l)
                    elif op in (">=", "<"):
                        l = lit(("ge0", d))
                        yield r, l if op == ">=" else neg(l)
                    else:
                        l = lit(("ge0", add(y, x, -1)))
                        yield r, l if op == "<=" else neg(l)
            return
        for q, v in self.expr(p, n):
            t = n.get("t", "")
            if v is not None and v[0] not in ("int", "lit", "lin") and re.search(r"\b(int|long|unsigned|size_t)\b", t) and "(" not in t:
                yield q, neg(lit(("eq0", v)))
            elif v is not None and v[0] == "call" and v[1] == "empty":
                yield q, neg(lit(("ge0", add(("call", "size") + v[2:], ("int", -1)))))
            else:
                yield q, self.literal(v)

    def branch(self, p, n):
        """yield (path, truth value) with the condition decided"""
        for q, l in self.cond(p, n):
            if l is None:
                l = lit(("t", ("?", s.text(n))))
            r = implied(q.lits, l)
            for b in (True, False) if r is None else (r,):
                x = q.assume(l if b else neg(l))
                if x is not None:
                    yield x, b

    # ---- calls
    def call(self, p, n):
        nm, a, b = s.callee_name(n), [x for x in n.get("c", []) if x], s.base_obj(n)
        oop = n.get("oop")
        if oop == "()":
            for q, f in self.expr(p, a[0]):
                if f[0] == "lambda":
                    for r, v in self.args(q, a[1:]):
                        yield from self.apply(r, f, v)
                    return
            b, a, nm = a[0], a[1:], "operator()"
        elif oop and len(a) >= 1 and oop != "":
            b, a = a[0], a[1:]
            if oop == "->" or oop == "*":
                yield from self.lval(p, b)
                return
            nm = "operator" + oop
        cal = n.get("callee")
        arrow = cal and cal.get("arrow")
        if b is None:
            st = [(p, self.thisv if cal and cal["k"] in ("MemberExpr", "UnresolvedMemberExpr", "CXXDependentScopeMemberExpr") else None)]
        else:
            st = list(self.expr(p, b) if arrow else self.lval(p, b))
        for q, bv in st:
            if bv is not None and bv[0] == "lambda":
                pass
            for r, av in self.cargs(q, n, a):
                yield from self.docall(r, n, nm, bv, av, a)

    def cargs(self, p, n, a):
        """arguments; those bound to non-const references are passed as places"""
        pt = n.get("pt") or []
        if n.get("oop") and len(pt) == len(a) + 1:
            pt = pt[1:]

        def go(q, i):
            if i == len(a):
                yield q, []
                return
            ref = i < len(pt) and pt[i].endswith("&") and "const" not in pt[i]
            for r, v in (self.lval(q, a[i]) if ref else self.expr(q, a[i])):
                for t, w in go(r, i + 1):
                    yield t, [v] + w
        yield from go(p, 0)

    def docall(self, p, n, nm, b, av, a):
        if nm in ("move", "forward", "ref", "cref") and len(av) == 1:
            yield p, av[0]
            return
        if nm in ("lock_guard", "operator<<"):
            yield p, ("call", nm, None, ())
            return
        if self.split and nm in ("min", "max") and len(av) == 2 and b is None and None not in av:
            l = lit(("ge0", add(av[1], av[0], -1)))         # the first is not the larger one
            for o in (True, False):
                q = (p if l is o else None) if isinstance(l, bool) else p.assume(l if o else neg(l))
                if q is not None:
                    yield q, av[0] if o == (nm == "min") else av[1]
            return
        f = self.resolve(n, b)
        if f is not None and f.get("body") and extracted(f) and self.depth < self.maxdepth and f["id"] not in self.inlining:
            self.inlined.add(f["id"])
            yield from self.enter(p, f, b, av)
            return
        e = self.event(nm, b, av, n, f)
        ro = n.get("constm") or (n.get("oop") in ("==", "!=", "<")) or nm in self.pure or nm in ("size", "empty", "begin", "end", "find", "count", "at", "front", "back", "data", "get", "rank", "length", "c_str")
        if f is not None and not e and f.get("body") and self.inline(f) and self.depth < self.maxdepth and f["id"] not in self.inlining:
            self.inlined.add(f["id"])
            yield from self.enter(p, f, b, av)
            return
        v = ("call", nm, None if b in (None, ("this",)) else b, tuple(x for x in av if x is not None)) + ((("v", p.ver.get(self.root(b), 0)),) if b not in (None, ("this",)) and p.ver.get(self.root(b), 0) else ())
        q = p.copy()
        if e:
            q.ev = q.ev + (("call", e if isinstance(e, str) else nm, b, tuple(av), n["l"]),)
        pt = n.get("pt") or []
        if n.get("oop") and len(pt) == len(av) + 1:
            pt = pt[1:]
        if not ro:
            if b is not None and b != ("this",):
                self.touch(q, b)
            elif b == ("this",) and not n.get("static"):
                w = self.writes(f) if f is not None else None
                if w is None:
                    for k in list(q.mem):
                        if self.root(k)[0] == "m":
                            del q.mem[k]
                    q.ver[("m*",)] = q.ver.get(("m*",), 0) + 1
                else:
                    for x in w:
                        self.touch(q, ("m", x))
        for t, x in zip(pt, av):
            if t.endswith("&") and "const" not in t and x is not None and x[0] in ("l", "m", ".", "[]"):
                self.touch(q, x)
        yield q, v

    inlining = ()
    wcache = None

    def writes(self, f, depth=0):
        """names of the members that a method of this object may change; None: any"""
        self.wcache = self.wcache or {}
        if f["id"] in self.wcache:
            return self.wcache[f["id"]]
        if depth > 6 or not f.get("body"):
            return None
        self.wcache[f["id"]] = set()
        out = set()

        def mem(x):
            while x is not None:
                x = strip(x)
                if x["k"] in ("MemberExpr", "CXXDependentScopeMemberExpr"):
                    c = [y for y in x.get("c", []) if y]
                    if not c or strip(c[0])["k"] == "CXXThisExpr":
                        return x["n"]
                    x = c[0]
                elif x["k"] in ("ArraySubscriptExpr", "UnaryOperator") or "callee" in x:
                    if "callee" in x and not x.get("oop"):
                        x = s.base_obj(x)
                    else:
                        c = [y for y in x.get("c", []) if y]
                        x = c[0] if c else None
                else:
                    return None
            return None
        for x in s.walk(f["body"]):
            t = []
            if x["k"] in ("BinaryOperator", "CompoundAssignOperator") and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                t = [x["c"][0]]
            elif x["k"] == "UnaryOperator" and ("++" in x["op"] or "--" in x["op"]) or x.get("oop") in ("=", "+=", "-=", "++", "--", "*="):
                t = [x["c"][0]]
            elif "callee" in x:
                b = s.base_obj(x)
                if b is not None and strip(b)["k"] != "CXXThisExpr" and not x.get("constm"):
                    t = [b]
                elif b is not None and not x.get("constm") or b is None and x["callee"]["k"] in ("MemberExpr", "UnresolvedMemberExpr", "CXXDependentScopeMemberExpr"):
                    g = self.resolve(x, ("this",))
                    w = self.writes(g, depth + 1) if g is not None else None
                    if w is None:
                        self.wcache[f["id"]] = None
                        return None
                    out |= w
                for ty, a in zip(x.get("pt") or [], [y for y in x.get("c", []) if y]):
                    if ty.endswith("&") and "const" not in ty:
                        t.append(a)
            for y in t:
                m = mem(y)
                if m:
                    out.add(m)
        self.wcache[f["id"]] = out
        return out

    def assigned(self, f, i):
        for x in s.walk(f["body"]):
            if x["k"] in ("BinaryOperator", "CompoundAssignOperator") and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">=") or x["k"] == "UnaryOperator" and ("++" in x["op"] or "--" in x["op"]) or x.get("oop") in ("=", "+=", "-=", "++", "--"):
                y = strip(x["c"][0])
                if y["k"] == "DeclRefExpr" and y.get("id") == i:
                    return True
        return False

    def enter(self, p, f, b, av):
        q = p.copy()
        saved = dict(q.env)
        for i, prm in enumerate(f["params"]):
            v = av[i] if i < len(av) else None
            if v is None and prm.get("init"):
                v = next(self.expr(q, prm["init"]))[1]
            q.env[prm["id"]] = v if v is not None else ("l", f"{prm['n']}#{prm['id']}")
            if v is not None and v[0] != "lambda" and not prm.get("t", "").endswith(("&", "*")) and self.assigned(f, prm["id"]):
                q.env[prm["id"]] = ("l", f"{prm['n']}#{prm['id']}")
                q.mem[q.env[prm["id"]]] = v
        this = b if f.get("cls") and not f.get("static") and b is not None else self.thisv
        if b not in (None, ("this",)) and not extracted(f):
            # another object: members are relative to it
            yield p, ("call", f["n"], b, tuple(av))
            return
        self.depth += 1
        old, self.inlining = self.inlining, self.inlining + (f["id"],)
        out, self.thisv = self.thisv, this
        try:
            rs = self.stmts([q], f["body"])
        finally:
            self.depth -= 1
            self.inlining = old
            self.thisv = out
        for r in rs:
            v = r.ret
            t = r.copy()
            t.env, t.ret, t.brk = saved, None, None
            yield t, (v[1] if v and v[1] is not None else ("void",))

    def apply(self, p, lam, av):
        n, env, mem = self.lam[lam[1]]
        q = p.copy()
        saved = dict(q.env)
        for k, v in env.items():
            q.env.setdefault(k, v)
        for prm, v in zip(n["params"], av):
            q.env[prm["id"]] = v
        self.depth += 1
        if self.depth > 20:
            raise Un("recursion")
        try:
            rs = self.stmts([q], n["body"])
        finally:
            self.depth -= 1
        for r in rs:
            v = r.ret
            t = r.copy()
            t.env, t.ret = saved, None
            yield t, (v[1] if v and v[1] is not None else ("void",))

    # ---- statements: list of paths -> list of paths
    def stmts(self, ps, n):
        n = strip(n)
        if n is None:
            return ps
        out = []
        for p in ps:
            if p.ret is not None or p.brk is not None:
                out.append(p)
            else:
                out += self.stmt(p, n)
        out = self.merge(out)
        if len(out) > MAXP:
            raise Un(f"more than {MAXP} paths")
        return out

    def merge(self, ps):
        """paths that differ only in one complementary literal are one"""
        if len(ps) < 2:
            return ps
        groups = {}
        for p in ps:
            groups.setdefault(p.key(), []).append(p)
        out = []
        for g in groups.values():
            ch = True
            while ch and len(g) > 1:
                ch = False
                for i in range(len(g)):
                    for j in range(i + 1, len(g)):
                        a, b = set(g[i].lits), set(g[j].lits)
                        d, e = a - b, b - a
                        if a == b or len(d) == 1 and len(e) == 1 and neg(next(iter(d))) == next(iter(e)):
                            g[i].lits = tuple(l for l in g[i].lits if l in b)
                            del g[j]
                            ch = True
                            break
                        if not d or not e:
                            # one assumes less
                            g[i].lits = g[i].lits if not d else g[j].lits
                            del g[j]
                            ch = True
                            break
                    if ch:
                        break
            out += g
        return out

    def stmt(self, p, n):
        k = n["k"]
        if k == "CompoundStmt":
            ps = [p]
            for x in n.get("c", []):
                if x:
                    ps = self.stmts(ps, x)
            return ps
        if k == "DeclStmt":
            ps = [p]
            for v in n.get("c", []):
                nxt = []
                for q in ps:
                    nxt += self.decl(q, v)
                ps = nxt
            return ps
        if k == "IfStmt":
            out = []
            ps = [p]
            if n.get("init"):
                ps = self.stmts(ps, n["init"])
            for q0 in ps:
                for q, b in self.branch(q0, n["cond"]):
                    t = n["then"] if b else n.get("else")
                    out += self.stmts([q], t) if t else [q]
            return self.merge(out)
        if k == "ReturnStmt":
            c = [x for x in n.get("c", []) if x]
            if not c:
                p = p.copy()
                p.ret = ("ret", None)
                return [p]
            out = []
            for q, v in self.expr(p, c[0]):
                q = q.copy()
                q.ret = ("ret", v)
                out.append(q)
            return out
        if k in ("BreakStmt", "ContinueStmt"):
            p = p.copy()
            p.brk = k
            return [p]
        if k in ("ForStmt", "CXXForRangeStmt", "WhileStmt", "DoStmt"):
            return self.loop(p, n)
        if k == "SwitchStmt":
            return self.switch(p, n)
        if k == "CXXTryStmt":
            return self.stmts([p], n["c"][0])
        if k in ("NullStmt",):
            return [p]
        return [q for q, _ in self.expr(p, n)]

    def decl(self, p, v):
        t = v.get("t", "")
        place = ("l", f"{v['n']}#{v['id']}")
        if not v.get("init"):
            p = p.copy()
            p.env[v["id"]] = place
            return [p]
        out = []
        ref = t.endswith("&") and "const" not in t
        for q, x in (self.lval(p, v["init"]) if ref else self.expr(p, v["init"])):
            q = q.copy()
            if ref or x is not None and x[0] == "lambda":
                q.env[v["id"]] = x
            else:
                q.env[v["id"]] = place
                q.mem = {k: y for k, y in q.mem.items() if not self.inside(k, place)}
                if x is not None and x[0] == "new" and x[1] == "StringBuffer":
                    for y in x[2]:          # a view of another object
                        y = y[1] if y[0] == "at" else y
                        if y[0] == "l":
                            self.alias.setdefault(place, set()).add(y)
                    if self.locals:
                        q.ev = q.ev + (("set", place, x, v.get("l", 0)),)
                    out.append(q)
                    continue
                if x is not None and not (x[0] == "new" and not x[2]):
                    q.mem[place] = x
                    if self.locals:
                        q.ev = q.ev + (("set", place, x, v.get("l", 0)),)
            out.append(q)
        return out

    def switch(self, p, n):
        items = []          # ("case", node or None) | ("stmt", node)

        def flat(x):
            x = strip(x)
            while x is not None and x["k"] in ("CaseStmt", "DefaultStmt"):
                items.append(("case", x.get("lhs") if x["k"] == "CaseStmt" else None))
                x = strip(([y for y in x.get("c", []) if y] or [None])[-1])
            if x is not None:
                items.append(("stmt", x))
        b = strip(n["body"])
        for x in (b.get("c", []) if b["k"] == "CompoundStmt" else [b]):
            if x:
                flat(x)
        out, start = [], []
        for q, v in self.expr(p, n["cond"]):
            rest = [q]
            for i, (k, x) in enumerate(items):
                if k == "case" and x is not None:
                    nxt = []
                    for r in rest:
                        for t, w in self.expr(r, x):
                            l = lit(("eq0", add(v, w, -1)))
                            d = implied(t.lits, l)
                            for c in (True, False) if d is None else (d,):
                                y = t.assume(l if c else neg(l))
                                if y is not None:
                                    (start.append((i, y)) if c else nxt.append(y))
                    rest = nxt
            dflt = [i for i, (k, x) in enumerate(items) if k == "case" and x is None]
            for r in rest:
                start.append((dflt[0], r)) if dflt else out.append(r)
        for i, r in start:
            ps = [r]
            for k, x in items[i:]:
                if k == "stmt":
                    ps = self.stmts(ps, x)
            for y in ps:
                if y.brk == "BreakStmt":
                    y = y.copy()
                    y.brk = None
                out.append(y)
        return self.merge(out)

    unroll = 0

    def elements(self, v):
        """the elements of a container that was built from a list of values"""
        for _ in range(4):
            if v is None or v[0] != "new":
                return None
            if v[1] in ("pair", "tuple", "basic_string"):
                return None
            a = v[2]
            if v[1] == "list":
                return list(a)
            if v[1] in ("vector", "set", "map", "initializer_list", "array", "unordered_map", "deque", "list") and len(a) == 1:
                v = a[0]
                continue
            return None
        return None

    def unrolled(self, p, n):
        """the paths of a loop whose passes are known, or None"""
        if n["k"] == "CXXForRangeStmt":
            q, rng = next(self.lval(p.copy(), n["range"]))
            e = self.elements(self.load(q, rng))
            if e is None or len(e) > 64:
                return None
            ps, out = [q], []
            for v in e:
                nxt = []
                for r in ps:
                    r = r.copy()
                    r.env[n["var"]["id"]] = v
                    for x in self.stmts([r], n["body"]):
                        (out if x.ret is not None or x.brk == "BreakStmt" else nxt).append(self.cont(x))
                ps = self.merge(nxt)
            return self.merge([self.nobreak(x) for x in ps + out])
        if not self.unroll or n["k"] == "DoStmt" or not n.get("cond"):
            return None
        ps = self.stmts([p.copy()], n["init"]) if n["k"] == "ForStmt" and n.get("init") else [p.copy()]
        out = []
        for _ in range(self.unroll + 1):
            nxt = []
            for q in ps:
                for r, l in self.cond(q, n["cond"]):
                    if not isinstance(l, bool):
                        return None
                    if not l:
                        out.append(r)
                        continue
                    for x in self.stmts([r], n["body"]):
                        if x.ret is not None or x.brk == "BreakStmt":
                            out.append(x)
                        else:
                            nxt += self.stmts([self.cont(x)], n["inc"]) if n.get("inc") else [self.cont(x)]
            ps = self.merge(nxt)
            if not ps:
                return self.merge([self.nobreak(x) for x in out])
        return None

    def nobreak(self, p):
        if p.brk == "BreakStmt":
            p = p.copy()
            p.brk = None
        return p

    def loop(self, p, n):
        u = self.unrolled(p, n)
        if u is not None:
            return u
        return self.summary(p, n)

    def summary(self, p, n):
        """one pass over the body; what it may assign is forgotten, its events are kept as alternatives"""
        p = p.copy()
        hd = None
        ps = [p]
        if n["k"] == "ForStmt" and n.get("init"):
            ps = self.stmts(ps, n["init"])
        out = []
        for q in ps:
            q = q.copy()
            if n["k"] == "CXXForRangeStmt":
                q, rng = next(self.lval(q, n["range"]))
                hd = ("each", rng, self.load(q, rng))
                q.env[n["var"]["id"]] = ("[]", rng, ("it", n["l"]))
            else:
                first = q.copy()
                self.forget(q, n)
                if n.get("cond"):
                    r = list(self.cond(q, n["cond"]))
                    hd = ("while", r[0][1]) if len(r) == 1 else ("while", ("?", s.text(n["cond"])))
                    if n["k"] == "ForStmt":
                        hd = hd + (tuple(sorted((k, v) for k, v in first.mem.items() if k[0] == "l" and k not in p.mem)),)
            b = q.copy()
            self.forget(b, n)
            b.ev = ()
            base = b.lits
            body = self.stmts([b], n["body"])
            if n.get("inc"):
                body = [y for x in body for y in (self.stmts([self.cont(x)], n["inc"]) if x.ret is None else [x])]
            alts = tuple(sorted({(tuple(l for l in x.lits if l not in base), x.ev, x.ret, x.brk if x.brk == "BreakStmt" else None) for x in body}, key=repr))
            r = q.copy()
            self.forget(r, n)
            if any(a[1] or a[2] for a in alts):
                r.ev = r.ev + (("loop", hd, alts, n["l"]),)
            out.append(r)
        return out

    def cont(self, p):
        if p.brk == "ContinueStmt":
            p = p.copy()
            p.brk = None
        return p

    def forget(self, p, n):
        """places that the loop assigns have unknown values"""
        for x in s.walk(n):
            t = None
            if x["k"] in ("BinaryOperator", "CompoundAssignOperator") and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                t = x["c"][0]
            elif x["k"] == "UnaryOperator" and ("++" in x["op"] or "--" in x["op"]) or x.get("oop") in ("=", "+=", "++", "--", "-="):
                t = x["c"][0]
            elif "callee" in x and s.base_obj(x) is not None and not x.get("constm"):
                t = s.base_obj(x)
            if t is None:
                continue
            t = strip(t)
            if t["k"] in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr") or t.get("oop") == "[]":
                try:
                    _, v = next(self.lval(p.copy(), t))
                except (Un, StopIteration, KeyError):
                    continue
                if v is None or v[0] not in ("l", "m", ".", "[]"):
                    continue
                r = self.root(v)
                p.ver[r] = p.ver.get(r, 0) + 1
                for k in [k for k in p.mem if self.root(k) == r]:
                    del p.mem[k]

    def run(self, f, lits=()):
        p = Path()
        p.lits = tuple(lits)
        for prm in f["params"]:
            p.env[prm["id"]] = ("l", f"{prm['n']}#")
        self.inlining = (f["id"],)
        return self.stmts([p], f["body"])


