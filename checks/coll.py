"""C02: every process of the communicator enters the same collective operations in the same order.

For every function that enters a collective operation (directly or through a function it calls) the trace of collectives that
follows each branch is computed over the syntax tree, through to the end of the function.  A branch whose two continuations have
different traces must be decided by a value that all processes of the communicator share."""
import re
import srclib as s
import transport

NAMES = {"gather", "allgather", "bcastv", "bcastj", "broadcast", "reduce", "all_reduce", "scatterv", "redistribute", "all2all", "barrier", "all_gather", "all_to_all", "scan"}
MPI = re.compile(r"MPI_(I?(Gatherv?|Allgatherv?|Bcast|Alltoall[vw]?|Scatterv?|Barrier|Reduce\w*|Allreduce|Exscan|Scan)|File_(open|close|set_view|\w+_all\w*|\w+_ordered\w*)|Comm_(split|dup|create|free)\w*)$")
STOP = {"fatal", "exit", "abort", "_exit", "MPI_Abort", "terminate", "throw"}
DIRS = ("include/ftk/", "src/")
ABORT = ("abort",)


def ours(f):
    return f["file"].startswith(DIRS) and "external" not in f["file"] and f["tmpl"] in ("", "inst", "pattern") and f.get("body")


def alone(c):
    """a call that is given the communicator of the process itself"""
    return any(y["k"] == "DeclRefExpr" and y.get("n") == "ompi_mpi_comm_self" for a in c.get("c", []) if isinstance(a, dict) for y in s.walk(a))


def direct(c):
    if alone(c):
        return None
    n = s.callee_name(c)
    n = n.split("::")[-1].split("<")[0]
    if MPI.match(n):
        return n
    if n in NAMES:
        q = c.get("f", "")
        b = s.base_obj(c)
        if b is not None:
            t = s.text(b)
            return n if (n == "barrier" or t.endswith("comm")) else None
        return n if (not q or "mpi" in q) else None
    return None


class Scan:
    def __init__(self, F):
        self.F = F
        self.funcs = [f for f in F.funcs if ours(f)]
        inst = {f["pid"] for f in self.funcs if f["tmpl"] == "inst" and f.get("pid")}
        self.funcs = [f for f in self.funcs if not (f["tmpl"] == "pattern" and f["id"] in inst)]
        self.coll = {}          # function id -> True
        self.byid = {f["id"]: f for f in self.funcs}
        self.cs = {f["id"]: [(c, direct(c)) for c in s.calls(f["body"])] for f in self.funcs}
        for i, cs in self.cs.items():
            if any(d for _, d in cs):
                self.coll[i] = True
        self.byname = {}
        for f in self.funcs:
            self.byname.setdefault(f["n"], []).append(f)
        ch = True
        while ch:
            ch = False
            for f in self.funcs:
                if f["id"] in self.coll:
                    continue
                if any(self.target(c) for c, _ in self.cs[f["id"]]):
                    self.coll[f["id"]] = True
                    ch = True

    def target(self, c):
        """the collective function a call may reach"""
        if alone(c):
            return None
        ts = self.F.targets(c)
        for t in ts:
            if t["id"] in self.coll:
                return t
        return None

    # ---- traces
    def marks(self, n):
        """collectives entered while evaluating an expression, in source order, as trace items"""
        out = []
        for x in s.walk(n):
            if x["k"] == "LambdaExpr":
                pass
            if not ("callee" in x or x["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr")):
                continue
            if s.callee_name(x).split("::")[-1] in STOP:
                out.append((ABORT, x))
                continue
            d = direct(x)
            t = None if d else self.target(x)
            if d or t:
                out.append(((d or t["q"].split("::")[-1],), x))
        return out

    def has(self, n):
        return bool(n) and any(m != ABORT for m, _ in self.marks(n))

    def leaves(self, n):
        """does the statement contain a way out of the function"""
        return any(x["k"] == "ReturnStmt" or x["k"] == "CXXThrowExpr" for x in s.walk(n, False))

    def expr(self, n, K):
        if n is None:
            return K
        k = n["k"]
        c = [x for x in n.get("c", []) if isinstance(x, dict)]
        if k == "ConditionalOperator" and (self.has(c[1]) or self.has(c[2])):
            return self.expr(c[0], self.join(n, c[0], self.expr(c[1], K), self.expr(c[2], K)))
        if k == "BinaryOperator" and n["op"] in ("&&", "||") and self.has(c[1]):
            return self.expr(c[0], self.join(n, c[0], self.expr(c[1], K), K))
        for m, x in reversed(self.marks(n)):
            if m == ABORT:
                K = ABORT
            else:
                K = (m[0],) + ((K,) if K != () else ())
        return K

    def join(self, n, cond, a, b):
        if a == b:
            return a
        if a == ABORT:
            return b
        if b == ABORT:
            return a
        self.branches += 1
        self.decide(n, cond, a, b)
        return ("if", s.text(cond), a, b)

    def block(self, cs, K, br):
        for x in reversed(cs):
            K = self.stmt(x, K, br)
        return K

    def stmt(self, n, K, br):
        if n is None:
            return K
        k = n["k"]
        if k == "CompoundStmt":
            return self.block([x for x in n.get("c", []) if isinstance(x, dict)], K, br)
        if k == "IfStmt":
            a = self.stmt(n.get("then"), K, br)
            b = self.stmt(n.get("else"), K, br)
            K = self.join(n, n.get("cond"), a, b)
            for f in ("cond", "cvar", "init"):
                if n.get(f):
                    K = self.expr(n[f], K)
            return K
        if k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
            body = [n.get(x) for x in ("cond", "inc", "body", "var") if n.get(x)]
            inner = any(self.has(x) for x in body)
            if not inner and not self.leaves(n):
                t = K
            else:
                t = self.stmt(n.get("body"), ("next",), (K, ("next",)))
                if k == "ForStmt":
                    t = self.expr(n.get("inc"), t)
                t2 = ("loop", t, K)
                if inner or self.has_exit(t, K):
                    c = n.get("cond") if k != "CXXForRangeStmt" else n.get("range")
                    self.branches += 1
                    self.decide(n, c, t, K)
                    t = t2
                else:
                    t = K
            for f in ("cond", "init", "range"):
                if n.get(f):
                    t = self.expr(n[f], t)
            return t
        if k == "SwitchStmt":
            if self.has(n.get("body")) or self.leaves(n):
                a = self.stmt(n["body"], K, (K, br[1] if br else None))
                if a != K:
                    self.decide(n, n.get("cond"), a, K)
                    K = a
            return self.expr(n.get("cond"), K)
        if k == "ReturnStmt":
            return self.expr(n, ())
        if k == "BreakStmt":
            return br[0]
        if k == "ContinueStmt":
            return br[1]
        if k in ("CXXTryStmt",):
            return self.stmt(n.get("body") or (n.get("c") or [None])[0], K, br)
        if k in ("CaseStmt", "DefaultStmt", "LabelStmt", "AttributedStmt"):
            c = n.get("sub") or n.get("body") or (n.get("c") or [None])[-1]
            return self.stmt(c, K, br)
        return self.expr(n, K)

    def has_exit(self, t, K):
        return t not in (("next",), K) and t != ABORT

    # ---- values all processes share
    def decide(self, n, cond, a, b):
        self.out.append((n, cond, a, b, self.local(cond)))

    LOCAL = re.compile(r"feature_point|feature_curve|feature_surface|Intersection|intersection|element|punctured")

    def share(self, t):
        """a container of results: each process holds its share"""
        return bool(self.LOCAL.search(t) and re.search(r"map|set|vector|list|deque|surface", t) and "function<" not in t)

    def per_process(self):
        """members that hold the share of one process: containers of results"""
        if self._pp is None:
            self._pp = set()
            for r in self.F.records:
                if not r["q"].startswith("ftk::"):
                    continue
                for m in r.get("fields", []):
                    t = m.get("t", "")
                    if self.share(t):
                        self._pp.add((r["q"].split("::")[-1].split("<")[0], m["n"]))
            self._ppn = {n for _, n in self._pp}
        return self._ppn

    def fn_local(self, f):
        """does the value of a function depend on the process"""
        i = f["id"]
        if i not in self._fl:
            self._fl[i] = False
            for x in s.walk(f["body"]):
                if x["k"] == "ReturnStmt" and any(self.src(y) for y in s.walk(x)):
                    self._fl[i] = True
        return self._fl[i]

    def src(self, x):
        """a source of values that differ between processes"""
        if "callee" in x:
            nm = s.callee_name(x)
            if nm in ("rank", "MPI_Comm_rank", "MPI_Wtime", "now", "gid", "this_thread"):
                return nm + "()"
            for t in self.F.targets(x):
                if t["id"] in self.byid and self.fn_local(t):
                    return nm + "()"
        if x["k"] == "MemberExpr" and x["n"] in self.per_process():
            return x["n"]
        return None

    def arms(self, n, chain=()):
        """branch context of every node: ((statement, arm), ...)"""
        self.ctx[id(n)] = chain
        for k in s.kids(n):
            c = chain
            if n["k"] in ("IfStmt", "ConditionalOperator"):
                arms = (n.get("then"), n.get("else")) if n["k"] == "IfStmt" else tuple(n.get("c", []))[1:3]
                if any(k is a for a in arms):
                    c = chain + ((id(n), 0 if k is arms[0] else 1),)
            elif n["k"] in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
                c = chain + ((id(n), "loop"),)
            self.arms(k, c)

    def reaches(self, d, u):
        """may a definition at node d reach a use at node u"""
        cd, cu = self.ctx.get(id(d), ()), self.ctx.get(id(u), ())
        loop = False
        for x, y in zip(cd, cu):
            if x != y:
                if x[0] == y[0]:
                    return loop
                break
            loop = loop or x[1] == "loop"
        return loop or d["l"] <= u["l"]

    def taint(self):
        """local variables of the function that may differ between processes: (id or name) -> [(line, why)]; and where they are made equal"""
        f = self.f
        t, clean = {}, {}
        self.ctx = {}
        self.arms(f["body"])

        def of(n):
            for x in s.walk(n):
                w = self.src(x)
                if w:
                    return w
                if x["k"] == "DeclRefExpr" and self.live(x.get("id"), x, t, clean):
                    return x["n"]
            return None

        def add(i, d, w):
            if i is not None and not any(e is d for e, _ in t.setdefault(i, [])):
                t[i].append((d, w))
                return True
            return False

        def assigned(n):
            """(variable id, name, line) written in a statement"""
            for x in s.walk(n):
                if x["k"] == "Var":
                    yield x.get("id"), x, x.get("init")
                c = [y for y in x.get("c", []) if isinstance(y, dict)]
                if (x["k"] in ("BinaryOperator",) and x["op"] == "=") or x["k"] == "CompoundAssignOperator" or (x.get("oop") == "="):
                    r = self.root(c[0])
                    if r is not None:
                        yield r, x, c[1]
                if "callee" in x and not x.get("oop"):
                    for y, pt in zip(c, x.get("pt") or []):
                        if pt.endswith("&") and "const" not in pt:
                            r = self.root(y)
                            if r is not None:
                                yield r, x, None
                if x["k"] == "UnaryOperator" and ("++" in x["op"] or "--" in x["op"]):
                    r = self.root(c[0])
                    if r is not None:
                        yield r, x, None
        for prm in f["params"]:
            w = self.pt.get((f["id"], prm["id"]))
            if w:
                add(prm["id"], f["body"], w)
        for x in s.walk(f["body"]):
            if x["k"] == "Var" and self.share(x.get("t", "")):
                add(x.get("id"), x, x["n"])
        for prm in f["params"]:
            if self.share(prm.get("t", "")):
                add(prm["id"], f["body"], prm["n"])
        ch = True
        while ch:
            ch = False
            for x in s.walk(f["body"]):
                if "callee" in x and direct(x) in ("broadcast", "bcastv", "bcastj", "all_reduce", "MPI_Bcast", "allgather", "MPI_Allreduce"):
                    for a in x.get("c", [])[1:]:
                        r = self.root(a) if isinstance(a, dict) else None
                        if r is not None:
                            clean.setdefault(r, [])
                            if not any(y is x for y in clean[r]):
                                clean[r].append(x)
            for i, l, v in assigned(f["body"]):
                if v is not None:
                    w = of(v)
                    if w:
                        ch |= add(i, l, w)
            for x in s.walk(f["body"]):
                if x["k"] in ("IfStmt", "ForStmt", "WhileStmt", "CXXForRangeStmt", "SwitchStmt"):
                    c = x.get("cond") or x.get("range")
                    w = c is not None and of(c)
                    if w:
                        for part in ("then", "else", "body"):
                            if x.get(part):
                                inner = {y.get("id") for y in s.walk(x[part]) if y["k"] == "Var"}
                                for i, l, v in assigned(x[part]):
                                    if i not in inner:
                                        ch |= add(i, l, w)
        self.t, self.clean = t, clean

    def root(self, n):
        while n is not None:
            if n["k"] == "DeclRefExpr":
                return n.get("id")
            c = [y for y in n.get("c", []) if isinstance(y, dict)]
            if n["k"] == "MemberExpr" and (not c or c[0]["k"] == "CXXThisExpr"):
                return ("m", n["n"])
            if n["k"] in ("MemberExpr", "ArraySubscriptExpr", "UnaryOperator", "ParenExpr") or n.get("oop") in ("[]", "*", "->"):
                n = c[0] if c else None
                continue
            return None
        return None

    def live(self, i, x, t, clean):
        if i is None or i not in t:
            return None
        for d, w in t[i]:
            if self.reaches(d, x) and not any(d["l"] < c["l"] <= x["l"] and self.ctx[id(c)] == self.ctx.get(id(x), ())[:len(self.ctx[id(c)])] for c in clean.get(i, ())):
                return w
        return None

    def local(self, c):
        """the parts of a condition that may differ between processes"""
        bad = []
        for x in s.walk(c) if c else ():
            w = self.src(x)
            if w:
                bad.append(w)
                continue
            i = x.get("id") if x["k"] == "DeclRefExpr" else ("m", x["n"]) if x["k"] == "MemberExpr" else None
            w = self.live(i, x, self.t, self.clean)
            if w:
                bad.append(f"{x['n']} (set from {w})")
        return sorted(set(bad))

    _pp = None

    def run(self, f):
        self.f, self.out, self.branches = f, [], 0
        self.taint()
        self.trace = self.stmt(f["body"], (), None)
        return self.trace

    def params(self):
        """parameters that receive a value of one process from some caller"""
        self.pt, self._fl = {}, {}
        ch = True
        while ch:
            ch = False
            for i in self.coll:
                self.f = self.byid[i]
                self.taint()
                for c, d in self.cs[i]:
                    if d or alone(c):
                        continue
                    for t in self.F.targets(c):
                        if t["id"] not in self.coll:
                            continue
                        for a, prm in zip([x for x in c.get("c", []) if isinstance(x, dict)], t["params"]):
                            b = self.local(a)
                            if b and (t["id"], prm["id"]) not in self.pt:
                                self.pt[(t["id"], prm["id"])] = b[0]
                                ch = True


def c02(R):
    """matching collectives"""
    F = s.main_facts()
    S = Scan(F)
    S.params()
    n = nb = nc = 0
    for i in sorted(S.coll):
        f = S.byid[i]
        S.run(f)
        n += 1
        nb += S.branches
        nc += sum(1 for c, d in S.cs[i] if d or S.target(c))
        for x, cond, a, b, bad in S.out:
            if bad:
                R.violation(f"split:{f['q'].split('::')[-1]}:{','.join(bad)}", s.loc(f, x), f"{f['q']}: {s.text(cond)} differs between processes ({', '.join(bad)}) and decides whether {flat(a) or 'nothing'} or {flat(b) or 'nothing'} follows")
    R.need(n >= 40 and nc >= 60, f"only {n} functions with collectives and {nc} sites were found")
    R.cov.update(functions=n, collective_sites=nc, branches=nb, rule="the collectives that follow a branch are the same on both sides, or all processes decide the branch alike")
    transport.run(F, R)


def flat(t):
    out = []

    def go(x):
        if x in ((), ("next",)):
            return
        if x[0] == "if":
            out.append("..")
            return
        if x[0] == "loop":
            go(x[1])
            go(x[2])
            return
        out.append(x[0])
        for y in x[1:]:
            go(y)
    go(t)
    return ", ".join(out[:4])
