"""Lockset analysis of parallel bodies over the exported AST: which shared locations every task reads and writes, under which locks."""
import re
import srclib as s

RUN = {"parallel_for", "parallel_for_container", "element_for", "element_for_ordinal", "element_for_interval"}
GUARDS = ("lock_guard", "unique_lock", "scoped_lock")
# members of library containers that leave the container itself unchanged (the element they return may be written by the caller)
STD_READ = {"operator[]", "at", "begin", "end", "cbegin", "cend", "rbegin", "rend", "front", "back", "data", "find", "count", "size", "empty", "get", "operator*", "operator->", "operator()",
            "operator bool", "first", "second", "c_str", "length", "capacity", "lower_bound", "upper_bound", "load", "rank", "good", "is_open"}
ELEM = {"operator[]", "at", "begin", "end", "cbegin", "cend", "rbegin", "rend", "front", "back", "data", "find", "get", "operator*", "operator->", "lower_bound", "upper_bound"}
ITER = re.compile(r"iterator<|__normal_iterator|_Node_iterator|_iterator\b|::iterator|::const_iterator")
MAXPATH = 6
TASK = ("task",)


class Acc:
    __slots__ = ("root", "write", "locks", "where", "what")

    def __init__(self, root, write, locks, where, what):
        self.root, self.write, self.locks, self.where, self.what = root, write, locks, where, what


def ext(r, c):
    """a part of a location: a field, '[]' any element, '[t]' the element of the task, '#' the structure of a container (its element set)"""
    if r is None or r == TASK or len(r) >= MAXPATH:
        return r
    return r + (c,)


def conflict(a, b):
    """may two tasks' accesses to the locations a and b overlap: one is a part of the other, and no common prefix is the task's own element"""
    n = min(len(a), len(b))
    return a[:n] == b[:n] and "[t]" not in a[:n]


def is_iter(n):
    return ITER.search(n.get("t", "")) is not None


def is_ref(t):
    return t.endswith("&") or t.endswith("*") or t.endswith("* const")


def strip(n):
    while n["k"] in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr") and n.get("c"):
        n = n["c"][0]
    return n


def lambda_of(n, env_lam):
    """the lambda an argument denotes: literally, wrapped in std::function, or a local variable initialised with it"""
    n = strip(n)
    if n["k"] == "LambdaExpr":
        return n
    if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXFunctionalCastExpr") and n.get("c"):
        return lambda_of(n["c"][0], env_lam)
    if n["k"] == "DeclRefExpr":
        return env_lam.get(n.get("id"))
    return None


class Body:
    def __init__(self, F, fn, lam, lams):
        self.F, self.fn, self.lams = F, fn, dict(lams)
        self.acc = []
        self.memo = set()
        self.found = frozenset()
        self.guards = {}
        self.nacq = 0
        self.stale = []
        self.src = {}
        self.calls = 0
        self.depth = 0
        self.file = fn["file"]
        env = {}
        dep = set()
        for i, p in enumerate(lam["params"]):
            env[p["id"]] = TASK
            dep.add(p["id"])
        self.bycopy = {c["id"]: c for c in lam.get("cap", []) if c["how"] == "copy" and "id" in c}
        self.this = (("this",),)
        self.stmt(lam["body"], env, dep, frozenset())

    # ---------------------------------------------------------------- roots
    def root(self, n, env, dep):
        """location of an lvalue, object or pointer expression: a base followed by a path; None or TASK: private to the task"""
        n = strip(n)
        k = n["k"]
        if k == "CXXThisExpr":
            return self.this
        if k == "DeclRefExpr":
            i = n.get("id")
            if i in env:
                return env[i]
            if n.get("dk") in ("global", "field"):
                return (("global", n.get("q") or n["n"]),)
            if n.get("dk") in ("func", "method", "enum", "tparm"):
                return None
            return (("var", i, n["n"]),)
        if k == "MemberExpr":
            c = n.get("c")
            b = self.this if not c else self.root(c[0], env, dep)
            if n.get("dk") == "method":
                return b
            return ext(b, n.get("q") or n["n"])
        if k == "ArraySubscriptExpr":
            return ext(self.root(n["c"][0], env, dep), "[t]" if self.taskdep(n["c"][1], env, dep) else "[]")
        if "callee" in n:
            oop, a = n.get("oop"), n.get("c", [])
            name = s.callee_name(n)
            if oop:
                if not a:
                    return None
                r = self.root(a[0], env, dep)
                if oop in ("[]", "()"):
                    return ext(r, "[t]" if any(self.taskdep(x, env, dep) for x in a[1:]) else "[]")
                if oop in ("==", "!=", "<", "-", "<<", ">>") and not is_iter(n):
                    return None
                return r
            b = s.base_obj(n)
            ixd = any(self.taskdep(x, env, dep) for x in a)
            if b is None and strip(n["callee"])["k"] == "MemberExpr":
                return ext(self.this, "[t]") if ixd else self.this
            if b is not None:
                r = self.root(b, env, dep)
                if self.F.targets(n):
                    return ext(r, "[t]") if ixd else r
                if name in ELEM and name != "get":
                    return ext(r, "[t]" if ixd else "[]")
                return r
            return self.root(a[0], env, dep) if a and name in ("get", "move", "forward", "ref", "max", "min", "next", "prev") else None
        if k == "UnaryOperator" and n["op"] in ("*", "&", "++", "--"):
            return self.root(n["c"][0], env, dep)
        if k == "BinaryOperator" and n["op"] in ("+", "-"):
            r = self.root(n["c"][0], env, dep)
            return ext(r, "[t]") if r is not None and self.taskdep(n["c"][1], env, dep) else r
        if k == "ConditionalOperator":
            r = self.root(n["c"][1], env, dep)
            return r if r is not None else self.root(n["c"][2], env, dep)
        if k in ("CStyleCastExpr", "CXXStaticCastExpr", "CXXReinterpretCastExpr", "CXXConstCastExpr", "CXXFunctionalCastExpr", "CXXDynamicCastExpr") and n.get("c"):
            return self.root(n["c"][0], env, dep)
        return None

    def taskdep(self, n, env, dep):
        return any(x["k"] == "DeclRefExpr" and x.get("id") in dep for x in s.walk(n))

    # ---------------------------------------------------------------- accesses
    def record(self, r, write, locks, n, what=None):
        if r is None or r == TASK or r == (("this",),):
            return
        if r[0][0] == "var" and r[0][1] in self.bycopy:
            return
        self.acc.append(Acc(r, write, locks, f"{self.file}:{n.get('l')}", what or s.text(strip(n))))

    def touch(self, n, write, env, dep, locks, what=None):
        self.record(self.root(n, env, dep), write, locks, n, what)

    def source(self, vid, e, n0, locks):
        """remember which locked locations the value of a task-local variable was read from, and in which critical section"""
        src = {(a.root, l) for a in self.acc[n0:] if not a.write for l in a.locks - locks} | {(a.root, l) for a in self.acc[n0:] if not a.write for l in a.locks}
        for x in s.walk(e):
            if x["k"] == "DeclRefExpr" and x.get("id") in self.src:
                src |= self.src[x["id"]]
        if src:
            self.src[vid] = src
        else:
            self.src.pop(vid, None)

    def check_stale(self, ops, obj, env, dep, locks):
        """a write under a lock whose operands were read from the same location in an earlier critical section of that lock"""
        w = self.root(obj, env, dep)
        if w is None or w == TASK or not locks:
            return
        for e in ops:
            for x in s.walk(e):
                for r, l in self.src.get(x.get("id"), ()) if x["k"] == "DeclRefExpr" else ():
                    if conflict(w[:2], r[:2]) and any(h[0] == l[0] for h in locks) and l not in locks:
                        self.stale.append((w, x["n"], f"{self.file}:{strip(obj).get('l')}"))

    def rebind(self, lhs, rhs, env, dep):
        """assignment to a task-local pointer or iterator: the variable now denotes another location"""
        n = strip(lhs)
        if n["k"] == "DeclRefExpr" and n.get("id") in env and (n.get("t", "").endswith("*") or is_iter(n)):
            r = self.root(rhs, env, dep) if rhs is not None else env[n["id"]]
            if r is not None:
                env[n["id"]] = r
            return True
        return False

    def expr(self, n, env, dep, locks):
        n = strip(n)
        k = n["k"]
        if k == "LambdaExpr":
            return                                   # analysed where it is called
        if k in ("BinaryOperator", "CompoundAssignOperator") and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
            if self.rebind(n["c"][0], n["c"][1] if n["op"] == "=" else None, env, dep):
                self.expr(n["c"][1], env, dep, locks)
                return
            n0 = len(self.acc)
            self.expr(n["c"][1], env, dep, locks)
            l = strip(n["c"][0])
            if l["k"] == "DeclRefExpr" and env.get(l.get("id"), TASK) is None:
                self.source(l["id"], n["c"][1], n0, locks)
            self.sub(n["c"][0], env, dep, locks)
            self.touch(n["c"][0], True, env, dep, locks)
            self.check_stale(n["c"], n["c"][0], env, dep, locks)
            return
        if k == "UnaryOperator" and n["op"].strip("p") in ("++", "--"):
            if self.rebind(n["c"][0], None, env, dep):
                return
            self.sub(n["c"][0], env, dep, locks)
            self.touch(n["c"][0], True, env, dep, locks)
            return
        if k in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr") :
            self.sub(n, env, dep, locks)
            self.touch(n, False, env, dep, locks)
            return
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            for a in n.get("c", []):
                self.expr(a, env, dep, locks)
            f = self.F.byid.get(n.get("fid"))
            if f and f.get("body") and not n.get("copy"):
                self.enter(f, None, n.get("c", []), env, dep, locks, fresh=True)
            return
        if "callee" in n:
            self.call(n, env, dep, locks)
            return
        for c in s.kids(n):
            self.expr(c, env, dep, locks)

    def sub(self, n, env, dep, locks):
        """index expressions and calls inside an lvalue"""
        n = strip(n)
        if n["k"] == "ArraySubscriptExpr":
            self.sub(n["c"][0], env, dep, locks)
            self.expr(n["c"][1], env, dep, locks)
        elif n["k"] == "MemberExpr" and n.get("c"):
            self.sub(n["c"][0], env, dep, locks)
        elif "callee" in n:
            self.call(n, env, dep, locks, lval=True)
        elif n["k"] not in ("DeclRefExpr", "CXXThisExpr"):
            for c in s.kids(n):
                self.expr(c, env, dep, locks)

    def call(self, n, env, dep, locks, lval=False):
        a = n.get("c", [])
        oop = n.get("oop")
        name = s.callee_name(n)
        if name in ("lock", "unlock") and s.base_obj(n) is not None:
            return
        # local lambda
        cal = strip(n["callee"])
        if oop == "()" and a:
            lam = lambda_of(a[0], self.lams)
            if lam is not None:
                self.inline(lam, a[1:], env, dep, locks)
                return
        obj, rest = None, a
        if oop and n.get("f") and "::operator" in n["f"] and self.member_op(n):
            obj, rest = (a[0], a[1:]) if a else (None, [])
        elif not oop:
            obj = s.base_obj(n)
        impl_this = not oop and cal["k"] == "MemberExpr" and (not cal.get("c") or strip(cal["c"][0])["k"] == "CXXThisExpr")
        for x in rest:
            self.expr(x, env, dep, locks)
        tg = [t for t in self.F.targets(n) if t.get("body")]
        if obj is not None and not impl_this:
            self.sub(obj, env, dep, locks)
        if oop in ("=", "+=", "-=", "*=", "/=", "++", "--") and a and not tg:
            if not self.rebind(a[0], a[1] if oop == "=" and len(a) > 1 else None, env, dep):
                self.touch(a[0], True, env, dep, locks)
                self.check_stale(a, a[0], env, dep, locks)
            return
        if tg:
            for t in tg:
                if impl_this:
                    self.enter(t, self.this, rest, env, dep, locks)
                elif obj is not None:
                    r = self.root(obj, env, dep)
                    if r is not None and r != TASK and oop in ("()", "[]") and any(self.taskdep(x, env, dep) for x in rest):
                        r = ext(r, "[t]")
                    self.enter(t, r, rest, env, dep, locks)
                else:
                    self.enter(t, None, rest, env, dep, locks)
            return
        # library code
        if obj is not None and not impl_this:
            cls = (n.get("f") or "").rsplit("::", 1)[0]
            t = strip(obj).get("t", "") + cls
            r = self.root(obj, env, dep)
            if r is None or r == TASK or re.search(r"\batomic\b|__atomic|concurrent", t) or is_iter(strip(obj)) or (oop and oop not in ("[]", "()", "*", "->")):
                return
            what = f"{s.text(strip(obj))}.{name}"
            write = not n.get("constm", False) and name not in STD_READ
            if name == "operator[]" and "map<" in t and (r, s.text(rest[0])) not in self.found:
                write = True                         # inserts a missing key
            self.record(r if write else ext(r, "#"), write, locks, n, what)
            if write:
                self.check_stale(rest, obj, env, dep, locks)
            if not lval and not write and name in ELEM and not is_iter(n) and not n.get("t", "").endswith("*"):
                self.touch(n, False, env, dep, locks, what)
            return
        # free library function: pointer and reference arguments may be written
        for i, x in enumerate(rest):
            pt = (n.get("pt") or [])
            if i < len(pt) and is_ref(pt[i]) and not pt[i].startswith("const ") and " const" not in pt[i][-8:] and name not in ("move", "forward", "max", "min", "get", "begin", "end", "fprintf", "operator<<", "operator==", "operator!=", "operator-"):
                self.touch(x, True, env, dep, locks)

    def member_op(self, n):
        return True if n.get("fid") is None or (self.F.byid.get(n["fid"], {}).get("cls") is not None) or "std::" in (n.get("f") or "") else False

    def inline(self, lam, args, env, dep, locks):
        key = ("lam", lam.get("fid"), locks)
        if key in self.memo or self.depth > 14:
            return
        self.memo.add(key)
        e2, d2 = dict(env), set(dep)
        for p, x in zip(lam["params"], args):
            self.expr(x, env, dep, locks)
            if is_ref(p["t"]):
                e2[p["id"]] = self.root(x, env, dep)
            else:
                e2[p["id"]] = None
            if self.taskdep(x, env, dep):
                d2.add(p["id"])
        self.depth += 1
        self.stmt(lam["body"], e2, d2, locks)
        self.depth -= 1

    def enter(self, f, this, args, env, dep, locks, fresh=False):
        if not f.get("body") or self.depth > 14:
            return
        roots, deps = [], []
        for p, x in zip(f["params"], args):
            r = None
            if is_ref(p["t"]):
                r = self.root(x, env, dep)
            roots.append(r)
            deps.append(self.taskdep(x, env, dep))
        key = (f["id"], this, tuple(roots), tuple(deps), locks)
        if key in self.memo:
            return
        self.memo.add(key)
        self.calls += 1
        e2, d2 = {}, set()
        for p, r, d in zip(f["params"], roots, deps):
            e2[p["id"]] = r
            if d:
                d2.add(p["id"])
        old = self.this, self.file, self.lams, self.bycopy, self.acc
        self.this, self.file, self.lams, self.bycopy, self.acc = (None if fresh else this), f["file"], {}, {}, []
        self.depth += 1
        for i in f.get("inits", []):
            if i.get("e"):
                self.expr(i["e"], e2, d2, locks)
        self.stmt(f["body"], e2, d2, locks)
        self.depth -= 1
        sub = self.acc
        self.this, self.file, self.lams, self.bycopy, self.acc = old
        self.acc += sub

    # ---------------------------------------------------------------- statements
    def stmt(self, n, env, dep, locks):
        """returns the locks held after the statement (explicit lock()/unlock())"""
        if n is None:
            return locks
        k = n["k"]
        if k == "CompoundStmt":
            cur = locks
            e2 = env
            for c in n.get("c", []):
                cur = self.stmt(c, e2, dep, cur)
            return locks & cur
        if k == "DeclStmt":
            cur = locks
            for v in n.get("c", []):
                cur = self.decl(v, env, dep, cur)
            return cur
        if k == "Var":
            return self.decl(n, env, dep, locks)
        if k == "CXXForRangeStmt":
            v = n["var"]
            self.touch(n["range"], False, env, dep, locks) if not is_ref(v["t"]) else self.record(ext(self.root(n["range"], env, dep), "#"), False, locks, n["range"])
            self.sub(n["range"], env, dep, locks)
            if is_ref(v["t"]):
                env[v["id"]] = ext(self.root(n["range"], env, dep), "[]")
            else:
                env[v["id"]] = None
            if self.taskdep(n["range"], env, dep):
                dep.add(v["id"])
            self.stmt(n["body"], env, dep, locks)
            return locks
        if k == "ForStmt":
            if n.get("init"):
                self.stmt(n["init"], env, dep, locks)
            for x in ("cond", "inc"):
                if n.get(x):
                    self.expr(n[x], env, dep, locks)
            self.stmt(n.get("body"), env, dep, locks)
            return locks
        if k in ("WhileStmt", "DoStmt", "IfStmt", "SwitchStmt"):
            after = locks
            for x in ("init", "cvar"):
                if n.get(x):
                    self.stmt(n[x], env, dep, locks)
            if n.get("cond"):
                self.expr(n["cond"], env, dep, locks)
            for x in ("then", "else", "body"):
                if n.get(x):
                    old = self.found
                    if x == "then" and n.get("cond"):
                        self.found = old | self.lookups(n["cond"], env, dep)
                    after = after & self.stmt(n[x], env, dep, locks)
                    self.found = old
            return after
        if k in ("CaseStmt", "DefaultStmt", "LabelStmt", "AttributedStmt", "CXXTryStmt"):
            for c in s.kids(n):
                if c["k"].endswith("Stmt"):
                    locks = self.stmt(c, env, dep, locks)
            return locks
        if k == "ReturnStmt":
            for c in n.get("c", []):
                self.expr(c, env, dep, locks)
            return locks
        m = strip(n)
        if "callee" in m and s.callee_name(m) in ("lock", "unlock") and s.base_obj(m) is not None:
            r = self.root(s.base_obj(m), env, dep)
            if r is not None and r != TASK:
                r = self.guards.get(r, r)
                return self.acquire(locks, r) if s.callee_name(m) == "lock" else frozenset(l for l in locks if l[0] != r)
            b = strip(s.base_obj(m))
            if b.get("id") in self.guards:
                r = self.guards[b["id"]]
                return self.acquire(locks, r) if s.callee_name(m) == "lock" else frozenset(l for l in locks if l[0] != r)
            return locks
        self.expr(n, env, dep, locks)
        return locks

    def acquire(self, locks, r):
        """a lock is identified by the mutex and by the acquisition, so that two critical sections of one mutex are told apart"""
        self.nacq += 1
        return locks | {(r, self.nacq)}

    def decl(self, v, env, dep, locks):
        if v["k"] != "Var":
            self.expr(v, env, dep, locks) if not v["k"].endswith("Decl") else None
            return locks
        t = v["t"]
        init = v.get("init")
        if any(g + "<" in t for g in GUARDS) and init is not None:
            args = strip(init).get("c", [])
            if args:
                r = self.root(args[0], env, dep)
                deferred = any("defer_lock" in a.get("n", "") or "try_to_lock" in a.get("n", "") for x in args[1:] for a in s.walk(x))
                if r is not None and r != TASK and not deferred:
                    self.guards[v["id"]] = r
                    return self.acquire(locks, r)
                if r is not None and r != TASK:
                    self.guards[v["id"]] = r
            return locks
        if v.get("static"):
            env[v["id"]] = (("static", v["id"], v["n"]),) if not t.startswith("const ") else None
            return locks
        if init is not None:
            n0 = len(self.acc)
            lam = strip(init)
            if lam["k"] == "LambdaExpr":
                self.lams[v["id"]] = lam
                env[v["id"]] = None
                return locks
            self.expr(init, env, dep, locks)
            self.source(v["id"], init, n0, locks)
            if self.taskdep(init, env, dep):
                dep.add(v["id"])
        env[v["id"]] = self.root(init, env, dep) if init is not None and (is_ref(t) or ITER.search(t)) else None
        return locks

    def lookups(self, cond, env, dep):
        """(container, key) pairs a condition looks up: inside the branch operator[] on them finds the key"""
        out = set()
        for c in s.calls(cond):
            if s.callee_name(c) in ("find", "count", "contains") and s.base_obj(c) is not None and c.get("c"):
                out.add((self.root(s.base_obj(c), env, dep), s.text(c["c"][0])))
        return frozenset(out)


def regions(F):
    """every call site of a parallel runner with the body it runs"""
    out, seen, wrappers, lost = [], set(), 0, []
    for f in F.funcs:
        if not f.get("body") or f["tmpl"] not in ("", "inst"):
            continue
        names = [c for c in s.calls(f["body"]) if s.callee_name(c) in RUN]
        if not names:
            continue
        lams = {}
        for x in s.walk(f["body"]):
            if x["k"] == "Var" and x.get("init") and strip(x["init"])["k"] == "LambdaExpr":
                lams[x["id"]] = strip(x["init"])
        params = {p["id"] for p in f["params"]}
        for c in names:
            lam = next((l for l in (lambda_of(a, lams) for a in c.get("c", [])) if l), None)
            key = (f["file"], c.get("l"))
            if lam is None:
                if any(x["k"] == "DeclRefExpr" and x.get("id") in params for a in c.get("c", []) for x in s.walk(a)):
                    wrappers += 1
                else:
                    lost.append(f"{f['file']}:{c.get('l')}")
                continue
            if key in seen:
                continue
            seen.add(key)
            out.append((f, c, lam, lams))
    return out, wrappers, lost


def rname(r):
    out = ""
    for c in r:
        if isinstance(c, tuple):
            out = "this" if c[0] == "this" else c[-1].replace("ftk::", "")
        elif c == "#":
            continue
        elif c in ("[]", "[t]"):
            out += "[]"
        else:
            out = c.split("::")[-1] if out == "this" else out + "." + c.split("::")[-1]
    return out


def sequential(F, c):
    """the call passes the literal thread count 1"""
    f = F.byid.get(c.get("fid"))
    for i, p in enumerate(f["params"] if f else []):
        if p["n"] == "nthreads" and i < len(c.get("c", [])):
            a = strip(c["c"][i])
            return a["k"] == "IntegerLiteral" and str(a.get("v")) == "1"
    return False


def run(R):
    F = s.main_facts()
    regs, wr, lost = regions(F)
    for l in lost:
        R.error(f"cannot find the body of the parallel loop at {l}")
    R.need(len(regs) >= 20, f"only {len(regs)} parallel bodies found")
    per, nacc, ncall = [], 0, 0
    seq = 0
    for f, c, lam, lams in regs:
        if sequential(F, c):
            seq += 1
            continue
        B = Body(F, f, lam, lams)
        nacc += len(B.acc)
        ncall += B.calls
        accs = {}
        for a in B.acc:
            accs.setdefault((a.root, a.write, frozenset(l[0] for l in a.locks)), a)
        accs = list(accs.values())
        shared, seen = [], set()
        for w in accs:
            if not w.write:
                continue
            shared.append(rname(w.root))
            for o in accs:
                if not conflict(w.root, o.root) or {l[0] for l in w.locks} & {l[0] for l in o.locks}:
                    continue
                base = rname(w.root[:2] if w.root[0] == ("this",) else w.root[:1])
                if base in seen:
                    continue
                seen.add(base)
                culprit = o if not o.locks else w
                R.violation(f"{f['file']}:{f['q']}#{base}", culprit.where,
                            f"the parallel body started at {f['file']}:{c.get('l')} in {f['q']} {'writes' if culprit.write else 'reads'} shared '{rname(culprit.root)}' ({culprit.what}) "
                            + ("without the lock held at its other accesses" if w.locks or o.locks else "without holding a lock")
                            + (f" (written at {w.where})" if culprit is not w else "") + "; another task may access it at the same time")
        for w, v, where in B.stale[:1]:
            R.violation(f"{f['file']}:{f['q']}#stale-{rname(w)}", where,
                        f"the parallel body started at {f['file']}:{c.get('l')} in {f['q']} updates shared '{rname(w)}' using '{v}', which was read from it in an earlier critical section: another task may have changed it in between (lost update)")
        per.append(dict(body=f"{f['file']}:{c.get('l')}", function=f["q"], calls=B.calls, accesses=len(B.acc), written=sorted(set(shared))))
    R.cov.update(parallel_bodies=len(regs) - seq, sequential_bodies=seq, forwarding_runners=wr, functions_entered=ncall, shared_accesses=nacc, bodies=per,
                 rule="every shared location a parallel body writes is task-indexed, or all its accesses in the body hold a common shared mutex")
    return R
