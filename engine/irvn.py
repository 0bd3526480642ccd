"""Value numbering of LLVM IR in the gated rational domain of gv.py.

One forward pass over the (reducible) control-flow graph: every SSA name and
every memory cell gets a gated normal form; values are joined at merge blocks
by gating on the incoming edge conditions; loops whose trip count is a
compile-time constant are unrolled in the abstract.  Reads of memory the
function did not write are named inputs `obj[offset]`.
"""
import re
import ctypes as C
from fractions import Fraction
from gv import *
import llir

MAXIT = 512
IGN = {"fprintf", "printf", "puts", "putchar", "fwrite", "fputc", "fputs", "putc"}
UF1 = {"cos", "sin", "tan", "acos", "asin", "atan", "exp", "log", "cbrt", "floor", "ceil", "tanh", "round", "trunc", "sqrt",
       "log10", "log2", "exp2"}
UF2 = {"atan2", "fmod", "pow", "hypot"}


class EdgeState:
    __slots__ = ("cond", "mem", "phis", "tgt", "src")


class Loop:
    """one symbolic loop: its iteration symbol, the gate under which an iteration is executed, what one iteration writes and how carried values change"""
    __slots__ = ("n", "ctx", "K", "fn", "exec", "phis", "carried", "writes", "exits")


class Engine:
    def __init__(self, module, dom=None):
        self.M = module
        self.D = dom or Dom()
        self.L = llir.lib()
        self.nobj = 0
        self.funcs = {}
        self.calls = set()
        self.ninst = 0
        self.nblk = 0
        self.inputs = {}
        self.uf_sqrt_args = {}
        self.opaque = set()      # names of functions to treat as uninterpreted
        self.hook = None
        self.special = None       # predicate on input names that may hold NaN or an infinity (then such tests become gates)
        self.narrow = []          # products of two run-time quantities computed in 32 bits or less
        self.ranges = {}          # digit symbol -> size symbol with 0 <= digit < size (declared by the entry)
        self.shift = {}
        self.seen = []
        self.base = True
        self.returning_ = {}
        self.generic = False      # loops with a symbolic trip count: analyse one symbolic iteration
        self.loops = []
        self.ctx = ()
        self.nloop = 0
        self.ran = []
        self.facts = None         # facts.Facts: assumptions that resolve comparisons and integer quotients
        self.truncs = []          # truncations of products of run-time quantities to 32 bits or less

    # ------------------------------------------------------------- helpers
    def getf(self, name):
        if name not in self.funcs:
            F = self.M.load_func(name)
            self.analyse(F)
            self.funcs[name] = F
        return self.funcs[name]

    def analyse(self, F):
        n = len(F.blocks)
        succ = [[F.bmap[s].idx for s in b.succ] for b in F.blocks]
        pred = [[] for _ in range(n)]
        for i, ss in enumerate(succ):
            for s in set(ss):
                pred[s].append(i)
        # RPO
        seen, order = set(), []
        st = [(0, iter(succ[0]))]
        seen.add(0)
        while st:
            u, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(succ[s])))
                    break
            else:
                order.append(u)
                st.pop()
        rpo = order[::-1]
        pos = {b: i for i, b in enumerate(rpo)}
        # dominators
        idom = {rpo[0]: rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = new, p
                            while x != y:
                                while pos[x] > pos[y]:
                                    x = idom[x]
                                while pos[y] > pos[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if idom[b] == b:
                    return False
                b = idom[b]
        loops = {}
        for u in rpo:
            for s in set(succ[u]):
                if pos[s] <= pos[u]:
                    if not dom(s, u):
                        raise Unsupported(f"irreducible control flow in {F.name}")
                    body = loops.setdefault(s, {s})
                    stack = [u]
                    while stack:
                        x = stack.pop()
                        if x not in body:
                            body.add(x)
                            stack += pred[x]
        F_extra[F.name] = (succ, rpo, pos, loops)

    def newobj(self, kind):
        self.nobj += 1
        return f"{kind}#{self.nobj}"

    # ------------------------------------------------------------- values
    def val(self, env, v):
        r = env.get(v, self)
        if r is not self:
            return r
        return self.const(v)

    def const(self, v):
        L = self.L
        vp = C.c_void_p(v)
        k = L.LLVMGetValueKind(vp)
        t = L.LLVMTypeOf(vp)
        tk = self.M.tyinfo(t)
        # kinds: 5 Function, 7 GlobalVariable? resolve by API predicates
        if L.LLVMIsAConstantInt(vp):
            w = self.M.intw(t)
            if w == 1:
                return bool(L.LLVMConstIntGetZExtValue(vp) & 1)
            if w > 64:
                s = L.LLVMPrintValueToString(vp).decode().split()[-1]
                return rc(int(s))
            return rc(L.LLVMConstIntGetSExtValue(vp))
        if L.LLVMIsAConstantFP(vp):
            lo = C.c_int()
            d = L.LLVMConstRealGetDouble(vp, C.byref(lo))
            if d != d:
                return Undef("nan constant")
            if d in (float("inf"), float("-inf")):
                return Rat(pvar("INF" if d > 0 else "NEGINF"))
            f = Fraction(d)
            g = f.limit_denominator(100000)
            if abs(g - f) < Fraction(1, 10 ** 14) * abs(f) and g != 0 and float(g) == d:
                f = g
            return rc(f)
        if L.LLVMIsUndef(vp) or L.LLVMIsPoison(vp):
            return Undef("undef value")
        if L.LLVMIsAConstantPointerNull(vp):
            return Ptr(None, rc(0))
        if L.LLVMIsAConstantAggregateZero(vp):
            return self.zero(t)
        if L.LLVMIsAGlobalVariable(vp):
            return Ptr("@" + self.M.name(v), rc(0))
        if L.LLVMIsAFunction(vp):
            return Ptr("@fn:" + self.M.name(v), rc(0))
        if L.LLVMIsAConstantExpr(vp):
            op = llir.OPS.get(L.LLVMGetConstOpcode(vp))
            if op == "gep":
                I = llir.Inst()
                I.v, I.op = v, "gep"
                I.ops = [L.LLVMGetOperand(vp, j) for j in range(L.LLVMGetNumOperands(vp))]
                I.extra = L.LLVMGetGEPSourceElementType(vp)
                return self.gep({}, I)
            if op in ("bitcast", "ptrtoint", "inttoptr"):
                return self.const(L.LLVMGetOperand(vp, 0))
            if op in ("icmp", "sub", "add"):
                a, b = self.const(L.LLVMGetOperand(vp, 0)), self.const(L.LLVMGetOperand(vp, 1))
                if op == "icmp":
                    pr = llir.IPRED[L.LLVMGetICmpPredicate(vp)]
                    if isinstance(a, Ptr) and isinstance(b, Ptr) and pr in ("==", "!="):
                        return (a == b) == (pr == "==")
                elif isinstance(a, Ptr) and isinstance(b, Ptr) and op == "sub":
                    return self.psub_(a, b)
        if tk in ("struct", "array"):
            n = L.LLVMGetNumOperands(vp)
            return tuple(self.const(L.LLVMGetOperand(vp, j)) for j in range(n))
        raise Unsupported("constant " + L.LLVMPrintValueToString(vp).decode()[:120])

    def zero(self, t):
        k = self.M.tyinfo(t)
        L = self.L
        if k == "int":
            return False if self.M.intw(t) == 1 else rc(0)
        if k in ("double", "float", "x86_fp80"):
            return rc(0)
        if k == "ptr":
            return Ptr(None, rc(0))
        if k == "struct":
            return tuple(self.zero(L.LLVMStructGetTypeAtIndex(C.c_void_p(t), i)) for i in range(L.LLVMCountStructElementTypes(C.c_void_p(t))))
        if k == "array":
            return tuple(self.zero(L.LLVMGetElementType(C.c_void_p(t))) for _ in range(L.LLVMGetArrayLength2(C.c_void_p(t))))
        raise Unsupported("zero of " + k)

    def gep(self, env, I):
        L = self.L
        base = self.val(env, I.ops[0])
        off = rc(0)
        t = I.extra
        idx = [self.val(env, o) for o in I.ops[1:]]
        tot = rc(0)
        D = self.D
        for j, x in enumerate(idx):
            if j == 0:
                sz = self.M.size(t)
            else:
                k = self.M.tyinfo(t)
                if k == "array":
                    t = L.LLVMGetElementType(C.c_void_p(t))
                    sz = self.M.size(t)
                elif k == "struct":
                    c = int(x.const)
                    o = L.LLVMOffsetOfElement(self.M.td, C.c_void_p(t), c)
                    t = L.LLVMStructGetTypeAtIndex(C.c_void_p(t), c)
                    tot = D.bin(radd, tot, rc(o))
                    continue
                else:
                    raise Unsupported("gep into " + k)
            s = rc(sz)
            tot = D.bin(radd, tot, D.bin(lambda a, b: rmul(a, b), x, s))

        def addp(p, o):
            if isinstance(p, Undef):
                return p
            if isinstance(o, Undef):
                return o
            if not isinstance(p, Ptr):
                raise Unsupported("gep on non-pointer")
            return Ptr(p.obj, radd(p.off, o))
        return D.apply(addp, base, tot)

    # ------------------------------------------------------------- memory
    def leafload(self, mem, p, t, I=None):
        if isinstance(p, Undef):
            return p
        if not isinstance(p, Ptr):
            raise Unsupported("load from non-pointer")
        if p.obj is None:
            return Undef("load from null")
        size = self.M.size(t)
        cells = mem.get(p.obj)
        k = (p.off, size)
        if cells is not None:
            c = cells.get(k)
            if c is not None:
                return c
            # alias check
            for (o, s), c in cells.items():
                if o == "fill":
                    continue
                d = radd(p.off, o, -1)
                if d.is_const:
                    dd = d.const
                    if -size < dd < s and not (dd >= s or dd <= -size):
                        if s == size and dd == 0:
                            return c
                        # overlapping partial access
                        return self.partial(cells, p, size, t, mem)
                else:
                    raise Unsupported(f"may-alias load {p.obj}[{p.off}] vs [{o}]")
            if ("fill", 1) in cells:
                nm = UF("dirty", (cells[("fill", 1)], p.obj, canon(p.off)))
                return Ptr("*" + str(nm), rc(0)) if self.M.tyinfo(t) == "ptr" else Rat(pvar(nm))
            g = self.filled(cells, p.off, size)
            if g is True:
                return self.zero(t)
            if g is not False:
                return self.D.ite(g, self.zero(t), Undef(f"uninitialised read {p.obj}") if p.obj.startswith(("stack", "heap")) else self.input(p, t))
        if p.obj.startswith("@"):
            return self.gload(p, t)
        if p.obj.startswith("stack") or p.obj.startswith("heap"):
            return Undef(f"uninitialised read {p.obj}")
        return self.input(p, t)

    def partial(self, cells, p, size, t, mem):
        if size == 8 and self.M.tyinfo(t) == "int":
            lo, hi = cells.get((p.off, 4)), cells.get((radd(p.off, rc(4)), 4))
            if lo is not None and hi is not None:
                def cat(a, b):
                    if not (isinstance(a, Rat) and isinstance(b, Rat) and a.is_const and b.is_const):
                        raise Unsupported(f"8-byte load over two symbolic 4-byte cells at {p}")
                    return rc(a.const % 2**32 + b.const * 2**32)
                return self.D.bin(cat, lo, hi)
        raise Unsupported(f"partially overlapping load at {p}")

    def input(self, p, t):
        k = self.M.tyinfo(t)
        if p.off.is_const:
            nm = self.iname(p.obj, int(p.off.const), t)
        else:
            nm = UF("ld", (p.obj, canon(p.off)))
        if k == "ptr":
            o = f"{p.obj}@{p.off}"
            return Ptr("*" + o, rc(0))
        if k == "int" and self.M.intw(t) == 1:
            return self.D.sign3(Rat(pvar(nm)), True, False, True)
        return Rat(pvar(nm))

    def iname(self, obj, off, t):
        sz = self.M.size(t)
        return f"{obj}[{off // sz}]" if off % sz == 0 else f"{obj}[+{off}]"

    def gload(self, p, t):
        L = self.L
        g = L.LLVMGetNamedGlobal(self.M.m, p.obj[1:].encode())
        L.LLVMGetNamedGlobal.restype = C.c_void_p
        g = L.LLVMGetNamedGlobal(self.M.m, p.obj[1:].encode())
        if not g or not L.LLVMIsGlobalConstant(C.c_void_p(g)):
            return self.input(p, t)
        ini = L.LLVMGetInitializer(C.c_void_p(g))
        ty = L.LLVMGlobalGetValueType(C.c_void_p(g))
        if not p.off.is_const:
            raise Unsupported("symbolic index into constant table")
        off = int(p.off.const)
        return self.cfield(ini, ty, off, t)

    def cfield(self, c, ty, off, t):
        L = self.L
        k = self.M.tyinfo(ty)
        if k == "array":
            et = L.LLVMGetElementType(C.c_void_p(ty))
            s = self.M.size(et)
            n = L.LLVMGetArrayLength2(C.c_void_p(ty))
            i = off // s
            if not 0 <= i < n:
                return Undef("constant table out of range")
            e = L.LLVMGetAggregateElement(C.c_void_p(c), i)
            return self.cfield(e, et, off - i * s, t)
        if k == "struct":
            n = L.LLVMCountStructElementTypes(C.c_void_p(ty))
            for i in reversed(range(n)):
                o = L.LLVMOffsetOfElement(self.M.td, C.c_void_p(ty), i)
                if o <= off:
                    et = L.LLVMStructGetTypeAtIndex(C.c_void_p(ty), i)
                    e = L.LLVMGetAggregateElement(C.c_void_p(c), i)
                    return self.cfield(e, et, off - o, t)
        if off != 0:
            raise Unsupported("partial constant load")
        return self.const(c)

    def load(self, mem, pv, t, I=None):
        k = self.M.tyinfo(t)
        if k in ("struct", "array"):
            L = self.L
            n = L.LLVMCountStructElementTypes(C.c_void_p(t)) if k == "struct" else L.LLVMGetArrayLength2(C.c_void_p(t))
            out = []
            for i in range(n):
                if k == "struct":
                    o = L.LLVMOffsetOfElement(self.M.td, C.c_void_p(t), i)
                    et = L.LLVMStructGetTypeAtIndex(C.c_void_p(t), i)
                else:
                    et = L.LLVMGetElementType(C.c_void_p(t))
                    o = i * self.M.size(et)
                out.append(self.load(mem, self.D.apply(lambda p: Ptr(p.obj, radd(p.off, rc(o))) if isinstance(p, Ptr) else p, pv), et))
            return tuple(out)
        return self.D.apply(lambda p: self.leafload(mem, p, t, I), pv)

    def store(self, mem, owned, pv, v, t, cond, I=None):
        if isinstance(v, tuple):
            L = self.L
            k = self.M.tyinfo(t)
            for i, x in enumerate(v):
                if k == "struct":
                    o = L.LLVMOffsetOfElement(self.M.td, C.c_void_p(t), i)
                    et = L.LLVMStructGetTypeAtIndex(C.c_void_p(t), i)
                else:
                    et = L.LLVMGetElementType(C.c_void_p(t))
                    o = i * self.M.size(et)
                self.store(mem, owned, self.D.apply(lambda p: Ptr(p.obj, radd(p.off, rc(o))), pv), x, et, cond)
            return
        D = self.D
        size = self.M.size(t)
        lv = D.leaves(pv)
        uniq = []
        for p in lv:
            if isinstance(p, Undef) or (isinstance(p, Ptr) and p.obj is None):
                continue    # undefined behaviour on that gate; value left unchanged
            if not isinstance(p, Ptr):
                raise Unsupported("store to non-pointer")
            if p not in uniq:
                uniq.append(p)
        for p in uniq:
            g = D.apply(lambda q: q == p, pv) if len(lv) > 1 else True
            cells = mem.get(p.obj, {})
            if p.obj not in owned:
                cells = dict(cells)
                mem[p.obj] = cells
                owned.add(p.obj)
            k = (p.off, size)
            if k not in cells:
                for (o, s) in list(cells):
                    if o == "fill":
                        continue
                    d = radd(p.off, o, -1)
                    if not d.is_const:
                        continue       # distinct symbolic cells: checked on load
                    if -size < d.const < s:
                        if len(uniq) == 1 and d.const <= 0 and d.const + size >= s:
                            del cells[(o, s)]
                        else:
                            raise Unsupported(f"overlapping store at {p} size {size} vs {o},{s}")
            if g is True:
                cells[k] = v
            else:
                old = self.leafload(mem, p, t)
                cells[k] = D.ite(g, v, old)

    def memcpy(self, mem, owned, dst, src, n, I, cond=True):
        if self.generic and isinstance(dst, Ptr) and isinstance(src, Ptr) and isinstance(n, Rat) and not (n.is_const and src.off.is_const):
            return self.copyloop(mem, owned, dst, src, n, cond)
        if not (isinstance(dst, Ptr) and isinstance(src, Ptr) and isinstance(n, Rat) and n.is_const and src.off.is_const):
            raise Unsupported("memcpy with symbolic arguments")
        n = int(n.const)
        so = src.off.const
        if dst.obj not in owned:
            mem[dst.obj] = dict(mem.get(dst.obj, {}))
            owned.add(dst.obj)
        dc = mem[dst.obj]
        for k in list(dc):
            if k[0] == "fill":
                continue
            d = radd(k[0], dst.off, -1)
            if d.is_const and 0 <= d.const < n:
                del dc[k]
        if src.obj.startswith("@"):
            L = self.L
            L.LLVMGetNamedGlobal.restype = C.c_void_p
            g = L.LLVMGetNamedGlobal(self.M.m, src.obj[1:].encode())
            cells = []

            def walk(ty, o):
                k = self.M.tyinfo(ty)
                if k == "array":
                    et = L.LLVMGetElementType(C.c_void_p(ty))
                    for i in range(L.LLVMGetArrayLength2(C.c_void_p(ty))):
                        walk(et, o + i * self.M.size(et))
                elif k == "struct":
                    for i in range(L.LLVMCountStructElementTypes(C.c_void_p(ty))):
                        walk(L.LLVMStructGetTypeAtIndex(C.c_void_p(ty), i), o + L.LLVMOffsetOfElement(self.M.td, C.c_void_p(ty), i))
                else:
                    cells.append((o, ty))
            walk(L.LLVMGlobalGetValueType(C.c_void_p(g)), 0)
            for o, ty in cells:
                if so <= o < so + n:
                    dc[(radd(dst.off, rc(o - so)), self.M.size(ty))] = self.gload(Ptr(src.obj, rc(o)), ty)
            return
        sc = mem.get(src.obj, {})
        for (o, s), v in list(sc.items()):
            if o == "fill":
                for lo, hi, g in v:
                    lo2, hi2 = max(lo, so), min(hi, so + n)
                    if lo2 < hi2:
                        base = dst.off.const - so
                        dc[("fill", 0)] = dc.get(("fill", 0), ()) + ((lo2 + base, hi2 + base, g),)
                continue
            if o.is_const and so <= o.const < so + n:
                dc[(radd(dst.off, rc(o.const - so)), s)] = v
        if not (src.obj.startswith("stack") or src.obj.startswith("heap")):
            # unread input memory: only modelled for arrays of 8-byte elements
            for o in range(int(so), int(so) + n, 8):
                k = (radd(dst.off, rc(o - so)), 8)
                if k not in dc:
                    dc[k] = Rat(pvar(f"{src.obj}[{o // 8}]"))

    def copyloop(self, mem, owned, dst, src, n, cond):
        """block copy of a run-time number of bytes (8-byte elements): one symbolic iteration"""
        i = self.nloop
        self.nloop += 1
        K = Rat(pvar(f"K{i}"))
        L = Loop()
        so = radd(src.off, rmul(K, rc(8)))
        self.L.LLVMGetModuleContext.restype = self.L.LLVMDoubleTypeInContext.restype = C.c_void_p
        v = self.leafload(mem, Ptr(src.obj, so), self.L.LLVMDoubleTypeInContext(C.c_void_p(self.L.LLVMGetModuleContext(C.c_void_p(self.M.m) if not isinstance(self.M.m, C.c_void_p) else self.M.m))))
        L.n, L.ctx, L.K, L.fn, L.exec = i, self.ctx, K, "memcpy", self.D.AND(cond, self.D.cmp("<", rmul(K, rc(8)), n))
        L.phis, L.carried, L.exits = [], [], 1
        L.writes = [(dst.obj, radd(dst.off, rmul(K, rc(8))), 8, v)]
        self.loops.append(L)
        mem[dst.obj] = {("fill", 1): i}
        owned.add(dst.obj)

    # ------------------------------------------------------------- services for hooks
    def peek(self, mem, p, size):
        """content of a memory cell (single pointer value)"""
        return (mem.get(p.obj) or {}).get((p.off, size))

    def poke(self, mem, owned, p, size, v):
        """set a memory cell (single pointer)"""
        if p.obj not in owned:
            mem[p.obj] = dict(mem.get(p.obj, {}))
            owned.add(p.obj)
        mem[p.obj][(p.off, size)] = v

    def sub(self, name, args, mem, owned):
        """run another function of the module from a hook"""
        rv, m2 = self.run(name, args, mem)
        mem.clear()
        mem.update(m2)
        owned.clear()
        return rv

    def invoke_function(self, fobj, args, mem, owned):
        """call the std::function object at fobj; args are values; they are passed by reference through fresh cells of the given sizes: [(value, size)]"""
        inv = self.peek(mem, Ptr(fobj.obj, radd(fobj.off, rc(24))), 8)
        if not (isinstance(inv, Ptr) and inv.obj and inv.obj.startswith("@fn:")):
            raise Unsupported(f"std::function target {inv}")
        vals = [fobj]
        for v, size in args:
            if size is None:
                vals.append(v)
                continue
            o = self.newobj("stack")
            mem[o] = {(rc(0), size): v}
            vals.append(Ptr(o, rc(0)))
        return self.sub(inv.obj[4:], vals, mem, owned)

    # ------------------------------------------------------------- execution
    def run(self, name, args, mem=None):
        """args: list of values. returns (ret, mem)"""
        F = self.getf(name)
        env = dict(zip(F.params, args))
        st = EdgeState()
        st.src = None
        st.cond, st.mem, st.phis, st.tgt = True, dict(mem or {}), {}, 0
        rets = []
        succ, rpo, pos, loops = F_extra[name]
        self.region(F, set(range(len(F.blocks))), 0, st, env, rets, top=True)
        if not rets:
            return None, (mem or {})
        D = self.D
        m = self.merge_mem([(c, mm) for c, _, mm in rets])
        rv = rets[-1][1]
        if isinstance(rv, tuple):
            rv = tuple(self._gate([(c, r[i]) for c, r, _ in rets]) for i in range(len(rv)))
        elif rv is not None:
            rv = self._gate([(c, r) for c, r, _ in rets])
        return rv, m

    def _gate(self, lst):
        v = lst[-1][1]
        for c, x in reversed(lst[:-1]):
            if isinstance(x, tuple):
                v = tuple(self.D.ite(c, a, b) for a, b in zip(x, v))
            else:
                v = self.D.ite(c, x, v)
        return v

    def merge_mem(self, lst):
        if len(lst) == 1:
            return lst[0][1]
        out = {}
        objs = set()
        for _, m in lst:
            objs |= set(m)
        for o in objs:
            ds = [m.get(o) for _, m in lst]
            if all(d is ds[0] for d in ds):
                out[o] = ds[0]
                continue
            keys = set()
            for d in ds:
                if d:
                    keys |= set(d)
            cells = {}
            for k in keys:
                if k == ("fill", 1):
                    cells[k] = max(d[k] for d in ds if d and k in d)
                    continue
                if k[0] == "fill":
                    f = [d.get(k) if d else None for d in ds]
                    if all(x == f[0] for x in f):
                        cells[k] = f[0]
                        continue
                    # a range zeroed on some of the merged paths only keeps the gate of those paths
                    rs = {}
                    for (c, _), x in zip(lst, f):
                        for lo, hi, g in x or ():
                            rs.setdefault((lo, hi), []).append((c, g))
                    fl = []
                    for (lo, hi), gs in rs.items():
                        if len(gs) == len(lst) and all(g is True for _, g in gs):
                            fl.append((lo, hi, True))
                            continue
                        t = False
                        for c, g in gs:
                            t = self.D.OR(t, self.D.AND(c, g))
                        fl.append((lo, hi, t))
                    cells[k] = tuple(fl)
                    continue
                vs = []
                for (c, m), d in zip(lst, ds):
                    if d is not None and k in d:
                        vs.append((c, d[k]))
                    else:
                        vs.append((c, self.absent(o, k, m, [dd[k] for dd in ds if dd and k in dd][0])))
                if all(x[1] is vs[0][1] for x in vs):
                    cells[k] = vs[0][1]
                else:
                    cells[k] = self._gate(vs)
            out[o] = cells
        return out

    def filled(self, cells, off, size):
        """gate under which a byte range was zeroed by memset"""
        r = False
        for lo, hi, g in cells.get(("fill", 0), ()):
            if off.is_const and lo <= off.const and off.const + size <= hi:
                if g is True:
                    return True
                r = self.D.OR(r, g)
        return r

    def absent(self, o, k, m, sample):
        if o.startswith("stack") or o.startswith("heap"):
            cells = m.get(o) or {}
            if ("fill", 1) in cells:
                return Ptr("*" + str(UF("dirty", (cells[("fill", 1)], o, canon(k[0])))), rc(0)) if isinstance(sample, Ptr) else Rat(pvar(UF("dirty", (cells[("fill", 1)], o, canon(k[0])))))
            g = self.filled(cells, k[0], 1)
            return rc(0) if g is True else Undef(f"uninitialised {o}") if g is False else self.D.ite(g, rc(0), Undef(f"uninitialised {o}"))
        if k[0].is_const:
            off = int(k[0].const)
            nm = f"{o}[{off // k[1]}]" if off % k[1] == 0 else f"{o}[+{off}]"
        else:
            nm = UF("ld", (o, canon(k[0])))
        return Rat(pvar(nm))

    def region(self, F, blocks, header, st, env, rets, top=False):
        """run the blocks of one region once; returns (exit edges, back edges)"""
        succ, rpo, pos, loops = F_extra[F.name]
        pending = {header: [st]}
        exits, back = [], []
        skip = set()
        for b in rpo:
            if b not in blocks or b in skip:
                continue
            inl = b in loops and (b != header or top)
            if inl:
                skip |= loops[b] - {b}
            if b not in pending:
                continue
            s = self.join(F, pending.pop(b))
            if s is None:
                continue
            if inl:
                out = []
                it = 0
                while s is not None:
                    if self.generic:
                        r = self.symbolic_loop(F, b, s, env, rets)
                        if r is not None:
                            out += r
                            break
                    ex, bk = self.region(F, loops[b], b, s, env, rets)
                    out += ex
                    s = self.join(F, bk) if bk else None
                    it += 1
                    if it > MAXIT:
                        raise Unsupported(f"loop without constant trip count in {F.name}: {F.blocks[b].insts[-1].text}")
            else:
                out = self.block(F, F.blocks[b], s, env, rets)
            for e in out:
                if e.tgt == header and not top:
                    back.append(e)
                elif e.tgt in blocks:
                    pending.setdefault(e.tgt, []).append(e)
                else:
                    exits.append(e)
        return exits, back

    def symbolic_loop(self, F, b, s, env, rets):
        """exit edges of a loop whose trip count is not a compile-time constant, after one symbolic iteration; None: the loop can be unrolled"""
        succ, rpo, pos, loops = F_extra[F.name]
        blocks = loops[b]
        snap = (len(self.seen), len(self.loops), self.nloop, self.ctx, len(self.narrow), len(self.truncs), self.ninst, self.nblk)

        def back():
            del self.seen[snap[0]:], self.loops[snap[1]:], self.narrow[snap[4]:], self.truncs[snap[5]:]
            self.nloop, self.ctx, self.ninst, self.nblk = snap[2], snap[3], snap[6], snap[7]
        at = len(self.ran)
        orc, self.D.oracle = self.D.oracle, None      # a first iteration that assumptions force is still an iteration of the loop
        sym = False
        try:
            ex, bk = self.region(F, blocks, b, s, dict(env), [])
        except Unsupported:
            if not orc:
                raise
            sym = True      # only analysable under the assumptions
        finally:
            self.D.oracle = orc
        if sym:
            back()
            ex, bk = self.region(F, blocks, b, s, dict(env), [])
        back()
        if not bk or not [e for e in bk if e.cond is not False]:
            return None
        ran = {i for f, i in self.ran[at:] if f == F.name}
        left = {e.src for e in ex if e.cond is not False}
        live = self.returning(F)
        if not sym and any(any(t not in blocks and t in live for t in succ[u]) and u not in left for u in blocks & ran):
            return None
        n = self.nloop
        self.nloop += 1
        inner0 = self.nloop
        K = Rat(pvar(f"K{n}"))
        hdr = [I.v for I in F.blocks[b].insts if I.op == "phi"]
        sym = {v: Rat(pvar(f"P{n}.{j}")) for j, v in enumerate(hdr)}
        for v in hdr:
            if isinstance(s.phis[v], Ptr):
                sym[v] = Ptr(s.phis[v].obj, sym[v])
            elif isinstance(s.phis[v], bool):
                sym[v] = self.D.sign3(sym[v], True, False, True)
        names = {f"P{n}.{j}" for j in range(len(hdr))}

        def run(phis, mem, rets):
            st = EdgeState()
            st.cond, st.tgt, st.src, st.phis, st.mem = s.cond, s.tgt, None, phis, mem
            e1 = dict(env)
            ex, bk = self.region(F, blocks, b, st, e1, rets)
            return ex, self.join(F, bk)
        # which values and cells does an iteration change?
        mem, ph = dict(s.mem), dict(sym)
        for _ in range(6):
            ex, e = run(ph, mem, [])
            back()
            self.nloop = inner0
            stable = True
            for o in set(e.mem):
                if e.mem[o] is mem.get(o) or not self.lives(o, s.mem):
                    continue
                old, new = mem.get(o, {}), e.mem[o]
                keys = [k for k in new if k[0] != "fill" and (k not in old or not self.same(new[k], old[k]))]
                if not keys and new.get(("fill", 0)) == old.get(("fill", 0)) and ("fill", 1) not in new:
                    continue
                if ("fill", 1) in old:
                    continue
                stable = False
                if all(k[0].is_const for k in keys) and ("fill", 1) not in new and new.get(("fill", 0)) == old.get(("fill", 0)):
                    c = dict(old)
                    for k in keys:
                        x = UF("carried", (n, o, k[0]))
                        c[k] = Ptr("*" + str(x), rc(0)) if isinstance(new[k], Ptr) else Rat(pvar(x))
                        if k in old and self.same(old[k], c[k]):
                            continue
                    if all(k in old and self.same(old[k], c[k]) for k in keys):
                        stable = True
                        continue
                    mem[o] = c
                else:
                    mem[o] = {("fill", 1): n}
            if stable:
                break
        else:
            raise Unsupported(f"loop state does not stabilise in {F.name}")
        # linear induction variables
        car = {}
        for v in hdr:
            x, y = sym[v], e.phis[v]
            if self.same(x, y) or (isinstance(x, Ptr) and x == y):
                ph[v] = s.phis[v]
                continue
            d = None
            if isinstance(x, Rat) and isinstance(y, Rat):
                d = radd(y, x, -1)
            elif isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj:
                d = radd(y.off, x.off, -1)
            if d is not None and not self.mentions(d, names | {f"K{j}" for j in range(inner0, inner0 + 50)}):
                ph[v] = self.D.un(lambda i: Ptr(i.obj, radd(i.off, rmul(d, K))) if isinstance(i, Ptr) else radd(i, rmul(d, K)), s.phis[v])
            else:
                car[v] = (sym[v], s.phis[v])
        self.ctx = snap[3] + (n,)
        r1 = []
        L = Loop()
        self.loops.append(L)
        ex, e = run(ph, mem, r1)
        self.ctx = snap[3]
        rets += r1
        L.n, L.ctx, L.K, L.fn, L.exec = n, snap[3], K, F.name, self.D.AND(self.base, e.cond) if self.base is not True else e.cond
        L.phis = [(s.phis[v], ph[v], e.phis[v]) for v in hdr]
        L.carried = [(car[v][0], car[v][1], e.phis[v]) for v in car]
        L.exits = len({x.src for x in ex})
        L.writes = []
        for o in e.mem:
            if e.mem[o] is not mem.get(o) and self.lives(o, s.mem):
                for k, v in e.mem[o].items():
                    if k[0] != "fill" and not (k in mem.get(o, {}) and self.same(v, mem[o][k])):
                        L.writes.append((o, k[0], k[1], v))
        env.update(ph)
        if L.exits == 1 and not r1:
            x = self.join(F, ex)
            x.cond = s.cond
            return [x]
        return ex

    def returning(self, F):
        """blocks from which a return can be reached (not those that end in throw / abort)"""
        if F.name not in self.returning_:
            succ = F_extra[F.name][0]
            live = {i for i, b in enumerate(F.blocks) if b.insts[-1].op == "ret"}
            more = True
            while more:
                more = False
                for u in range(len(F.blocks)):
                    if u not in live and any(t in live for t in succ[u]):
                        live.add(u)
                        more = True
            self.returning_[F.name] = live
        return self.returning_[F.name]

    @staticmethod
    def lives(o, mem):
        """an object that exists across iterations"""
        return o in mem or not o.startswith(("stack", "heap"))

    @staticmethod
    def mentions(r, names):
        for p in (r.n, r.d):
            for m in p.t:
                for v, _ in m:
                    if v in names or (not isinstance(v, str) and any(x in str(v) for x in names)):
                        return True
        return False

    def join(self, F, lst):
        lst = [e for e in lst if e.cond is not False]
        if not lst:
            return None
        if len(lst) == 1:
            return lst[0]
        s = EdgeState()
        s.tgt, s.src = lst[0].tgt, lst[0].src
        c = lst[0].cond
        for e in lst[1:]:
            c = self.D.OR(c, e.cond)
        s.cond = c
        s.mem = self.merge_mem([(e.cond, e.mem) for e in lst])
        s.phis = {}
        for k in lst[0].phis:
            vs = [(e.cond, e.phis[k]) for e in lst]
            s.phis[k] = vs[0][1] if all(self.same(x[1], vs[0][1]) for x in vs) else self._gate(vs)
        return s

    @staticmethod
    def same(a, b):
        if a is b:
            return True
        if isinstance(a, Node) or isinstance(b, Node) or isinstance(a, tuple) or isinstance(b, tuple):
            return False
        return type(a) is type(b) and a == b

    def edge(self, F, src, tgtv, cond, mem, env):
        e = EdgeState()
        T = F.bmap[tgtv]
        e.tgt, e.cond, e.mem, e.phis, e.src = T.idx, cond, mem, {}, src.idx
        for I in T.insts:
            if I.op != "phi":
                break
            for v, bb in I.ops:
                if bb == src.v:
                    e.phis[I.v] = self.val(env, v)
                    break
        return e

    def block(self, F, B, s, env, rets):
        D = self.D
        mem, owned = dict(s.mem), set()
        env.update(s.phis)
        cond = s.cond
        self.nblk += 1
        if self.generic:
            self.ran.append((F.name, B.idx))
        L = self.L
        for I in B.insts:
            op = I.op
            self.ninst += 1
            if op == "phi":
                continue
            if op == "br":
                if len(B.succ) == 1:
                    return [self.edge(F, B, B.succ[0], cond, mem, env)]
                c = self.val(env, I.ops[0])
                out = []
                # LLVM operand order: cond, false, true ; successors: true, false
                ct = D.AND(cond, c) if not isinstance(c, Undef) else c
                if isinstance(c, Undef) or any(isinstance(x, Undef) for x in D.leaves(c)):
                    # undef only where the path condition already excludes it is harmless
                    ct = D.apply(lambda x, y: False if y is False else x, c, cond)
                    if any(isinstance(x, Undef) for x in D.leaves(ct)):
                        raise UndefBranch(F.name, I.text)
                cf = D.AND(cond, D.NOT(ct)) if True else None
                if ct is not False:
                    out.append(self.edge(F, B, B.succ[0], ct, mem, env))
                if cf is not False:
                    out.append(self.edge(F, B, B.succ[1], cf, mem, env))
                if B.succ[0] == B.succ[1]:
                    return out[:1] if len(out) == 1 else [self.edge(F, B, B.succ[0], cond, mem, env)]
                return out
            if op == "switch":
                x = self.val(env, I.ops[0])
                out = []
                rest = cond
                for j in range(2, len(I.ops), 2):
                    cv = self.const(I.ops[j])
                    eq = D.cmp("==", x, cv)
                    c = D.AND(rest, eq)
                    rest = D.AND(rest, D.NOT(eq))
                    if c is not False:
                        out.append(self.edge(F, B, I.ops[j + 1], c, mem, env))
                if rest is not False:
                    out.append(self.edge(F, B, I.ops[1], rest, mem, env))
                return out
            if op == "ret":
                rets.append((cond, self.val(env, I.ops[0]) if I.ops else None, mem))
                return []
            if op == "unreachable":
                return []
            if op == "invoke":
                env[I.v] = self.call(F, I, env, mem, owned, cond)
                return [self.edge(F, B, B.succ[0], cond, mem, env)]
            env[I.v] = self.inst(F, I, env, mem, owned, cond)
        raise Unsupported("block without terminator")

    def inst(self, F, I, env, mem, owned, cond):
        D, op, L = self.D, I.op, self.L
        V = lambda j: self.val(env, I.ops[j])
        if op == "add":
            return D.bin(self.padd_, V(0), V(1))
        if op == "sub":
            return D.bin(self.psub_, V(0), V(1))
        if op == "fadd":
            return D.bin(radd, V(0), V(1))
        if op == "fsub":
            return D.bin(lambda a, b: radd(a, b, -1), V(0), V(1))
        if op in ("ptrtoint", "inttoptr"):
            return V(0)
        if op in ("fmul", "mul"):
            if op == "mul" and self.M.intw(I.ty) <= 32:
                a, b = V(0), V(1)
                if not any(isinstance(x, Rat) and x.is_const for x in (a, b)):
                    self.narrow.append(f"{F.name}: {I.text[:80]}")
                return D.bin(rmul, a, b)
            return D.bin(rmul, V(0), V(1))
        if op == "fdiv":
            def div(a, b):
                if b.is_const and b.const == 0:
                    return Undef("division by zero")
                return rdiv(a, b)
            return D.bin(div, V(0), V(1))
        if op == "fneg":
            return D.un(lambda a: rmul(rc(-1), a), V(0))
        if op in ("sdiv", "udiv", "srem", "urem"):
            def idiv(a, b):
                if a.is_const and b.is_const and b.const != 0:
                    x, y = int(a.const), int(b.const)
                    q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                    return rc(q) if "div" in op else rc(x - q * y)
                if "div" in op and b.is_const:
                    q = pscale(a.n, Fraction(1, int(b.const)))
                    if a.d == P1 and all(isinstance(c, int) for c in q.t.values()):
                        return Rat(q)
                if b.is_const and b.const == 1:
                    return a if "div" in op else rc(0)
                if b.is_const and b.const > 1 and a.d == P1 and all(isinstance(c, int) for c in a.n.t.values()):
                    # a = b * q + r with a constant 0 <= r < b (non-negative operands)
                    k = int(b.const)
                    if all(c % k == 0 for m, c in a.n.t.items() if m):
                        c0 = a.n.t.get((), 0)
                        q = Poly({**{m: c // k for m, c in a.n.t.items() if m}, **({(): c0 // k} if c0 // k else {})})
                        return Rat(q) if "div" in op else rc(c0 % k)
                if self.facts and a.d == P1 and b.d == P1:
                    qr = self.facts.quot(a.n, b.n)
                    if qr is not None:
                        q, r = Rat(qr[0]), Rat(qr[1])
                        if op[0] == "u" or self.facts.nonneg(a.n):
                            return q if "div" in op else r
                        # truncation towards zero for a negative dividend with a remainder
                        s = self.facts.sign(qr[1])
                        up = (radd(q, rc(1)), radd(r, b, -1))
                        pick = lambda x: x[0] if "div" in op else x[1]
                        neg = pick((q, r)) if s == 0 else pick(up) if s == 1 else D.sign3(r, pick(up), pick((q, r)), pick(up))
                        return neg if self.facts.sign(a.n) == -1 else D.sign3(a, neg, pick((q, r)), pick((q, r)))
                q = self.ranged_div(a, b)
                if q is None:
                    q = Rat(pvar(UF("div", (canon(a), canon(b)))))
                return q if "div" in op else radd(a, rmul(q, b), -1)
            return D.bin(idiv, V(0), V(1))
        if op in ("icmp",):
            return D.cmp(I.pred, V(0), V(1))
        if op == "fcmp":
            if self.special:
                r = self.special_cmp(I, V(0), V(1))
                if r is not None:
                    return r
            if I.pred in ("ord", "true"):
                return True
            if I.pred in ("uno", "false"):
                return False
            return D.cmp(I.pred, V(0), V(1))
        if op == "select":
            c, a, b = V(0), V(1), V(2)
            if isinstance(a, tuple):
                return tuple(D.ite(c, x, y) for x, y in zip(a, b))
            return D.ite(c, a, b)
        if op in ("zext", "sext"):
            x = V(0)
            w = self.M.intw(L.LLVMTypeOf(C.c_void_p(I.ops[0])))
            if w == 1:
                return D.ite(x, rc(1 if op == "zext" else -1), rc(0))
            return x
        if op == "trunc":
            w = self.M.intw(I.ty)
            if w == 1:
                return D.cmp("!=", V(0), rc(0))

            def tr(a):
                if a.is_const:
                    c = int(a.const) & ((1 << w) - 1)
                    return rc(c - (1 << w) if c >> (w - 1) else c)
                if w <= 32 and any(sum(e for v, e in m) > 1 for m in a.n.t):
                    self.truncs.append(f"{F.name}: {I.text[:80]}")
                return a
            return D.un(tr, V(0))
        if op in ("fpext", "fptrunc", "sitofp", "uitofp", "freeze", "bitcast"):
            x = V(0)
            if op in ("sitofp", "uitofp") and (isinstance(x, bool) or any(isinstance(y, bool) for y in D.leaves(x))):
                return D.ite(x, rc(1), rc(0))
            return x
        if op in ("fptosi", "fptoui"):
            def ti(a):
                if a.is_const:
                    return rc(int(a.const))
                if self.facts and a.d == P1 and all(isinstance(c, int) for c in a.n.t.values()) and all(isinstance(v, str) for m in a.n.t for v, _ in m):
                    return a
                return Rat(pvar(UF("int", (canon(a),))))
            return D.un(ti, V(0))
        if op in ("and", "or", "xor", "shl", "lshr", "ashr"):
            w = self.M.intw(I.ty)
            a, b = V(0), V(1)
            if w == 1:
                if op == "and":
                    return D.AND(a, b)
                if op == "or":
                    return D.OR(a, b)
                return D.ite(a, D.NOT(b), b)

            def bit(x, y):
                if x.is_const and y.is_const:
                    p, q = int(x.const), int(y.const)
                    r = {"and": p & q, "or": p | q, "xor": p ^ q, "shl": p << q if op == "shl" else 0, "ashr": p >> q if op == "ashr" else 0,
                         "lshr": (p & ((1 << w) - 1)) >> q if op == "lshr" else 0}[op]
                    r &= (1 << w) - 1
                    return rc(r - (1 << w) if r >> (w - 1) else r)
                if op == "shl" and y.is_const:
                    return rmul(x, rc(2 ** int(y.const)))
                if op == "xor" and y.is_const and y.const == -1:
                    return radd(rc(-1), x, -1)
                return Rat(pvar(UF(op, (canon(x), canon(y)))))
            return D.bin(bit, a, b)
        if op == "alloca":
            return Ptr(self.newobj("stack"), rc(0))
        if op == "load":
            return self.load(mem, V(0), I.ty, I)
        if op == "store":
            self.store(mem, owned, V(1), V(0), L.LLVMTypeOf(C.c_void_p(I.ops[0])), cond, I)
            return None
        if op == "atomicrmw":
            m = re.search(r"atomicrmw (?:volatile )?(\w+)", I.text)
            old = self.load(mem, V(0), I.ty, I)
            if m.group(1) not in ("add", "sub", "xchg"):
                raise Unsupported(f"{op}: {I.text[:160]}")
            new = V(1) if m.group(1) == "xchg" else self.D.bin(lambda a, b: radd(a, b, -1 if m.group(1) == "sub" else 1), old, V(1))
            self.store(mem, owned, V(0), new, I.ty, cond, I)
            return old
        if op == "fence":
            return None
        if op == "gep":
            return self.gep(env, I)
        if op == "extractvalue":
            x = V(0)
            for i in I.extra:
                x = x[i]
            return x
        if op == "insertvalue":
            x, y = V(0), V(1)
            if isinstance(x, Undef):
                k = L.LLVMCountStructElementTypes(C.c_void_p(I.ty)) if self.M.tyinfo(I.ty) == "struct" else L.LLVMGetArrayLength2(C.c_void_p(I.ty))
                x = (Undef("agg"),) * k
            def ins(x, path):
                x = list(x)
                x[path[0]] = y if len(path) == 1 else ins(x[path[0]], path[1:])
                return tuple(x)
            return ins(x, I.extra)
        if op == "call":
            return self.call(F, I, env, mem, owned, cond)
        raise Unsupported(f"{op}: {I.text[:160]}")

    def padd_(self, a, b):
        if isinstance(a, Ptr) and isinstance(b, Rat):
            return Ptr(a.obj, radd(a.off, b))
        if isinstance(b, Ptr) and isinstance(a, Rat):
            return Ptr(b.obj, radd(b.off, a))
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            raise Unsupported("pointer addition")
        return radd(a, b)

    def psub_(self, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj:
                return radd(a.off, b.off, -1)
            if a.obj is not None and b.obj is not None and a.obj[0] == "*" and b.obj[0] == "*":
                return radd(Rat(pvar(UF("ptrdiff", (a.obj, b.obj)))), radd(a.off, b.off, -1))
            raise Unsupported(f"difference of unrelated pointers {a} {b}")
        if isinstance(a, Ptr) and isinstance(b, Rat):
            return Ptr(a.obj, radd(a.off, b, -1))
        if isinstance(b, Ptr):
            raise Unsupported("pointer subtraction")
        return radd(a, b, -1)

    def ranged_div(self, a, b):
        """floor quotient a / b when b is a product of declared sizes and a is a mixed-radix combination of digits with declared ranges (0 <= digit < size)"""
        R = self.ranges
        if not R or a.d != P1 or b.d != P1 or len(b.n.t) != 1:
            return None
        (bm, bc), = b.n.t.items()
        if bc != 1:
            return None
        bd = dict(bm)
        hi, lo = {}, {}
        for m, c in a.n.t.items():
            d = dict(m)
            if all(d.get(v, 0) >= e for v, e in bd.items()):
                hi[tuple((v, e - bd.get(v, 0)) for v, e in m if e - bd.get(v, 0))] = c
            else:
                lo[m] = c
        if self.below(lo, bd, R):
            return Rat(Poly(hi)) if hi else rc(0)
        return None

    @staticmethod
    def below(lo, bd, R):
        """0 <= lo < product(bd)?"""
        if not lo:
            return True
        # peel one size off the product: lo = digit * rest + lower, digit in range of that size, lower < rest
        for s in bd:
            rest = {v: e - (v == s) for v, e in bd.items() if e - (v == s)}
            up, dn = [], {}
            for m, c in lo.items():
                d = dict(m)
                if all(d.get(v, 0) >= e for v, e in rest.items()):
                    q = tuple((v, e - rest.get(v, 0)) for v, e in m if e - rest.get(v, 0))
                    if c == 1 and len(q) == 1 and q[0][1] == 1 and R.get(q[0][0]) == s:
                        up.append(q)
                        continue
                dn[m] = c
            if len(up) <= 1 and len(dn) < len(lo) and Engine.below(dn, rest, R):
                return True
        return False

    def kind(self, a, k):
        """gate 'a is NaN' / 'a is infinite' for an input that may be special, False otherwise"""
        if isinstance(a, Rat) and a.d == P1 and len(a.n.t) == 1:
            (m, c), = a.n.t.items()
            if abs(c) == 1 and len(m) == 1 and m[0][1] == 1 and self.special(m[0][0].args[0] if isinstance(m[0][0], UF) and m[0][0].name == "ld" else str(m[0][0])):
                return self.D.sign3(Rat(pvar(UF(k, (Rat(pvar(m[0][0])),)))), False, False, True)
        return False

    def fpclass(self, a, mask):
        D = self.D
        parts = [mask & 3, mask & 516, mask & 504]
        if any(p not in (0, f) for p, f in zip(parts, (3, 516, 504))):
            raise Unsupported("partial floating-point class test")
        return D.ite(self.kind(a, "isnan"), bool(parts[0]), D.ite(self.kind(a, "isinf"), bool(parts[1]), bool(parts[2])))

    def special_cmp(self, I, x, y):
        D = self.D
        isinf = lambda z: isinstance(z, Rat) and not z.is_const and str(z) == "INF"
        if I.pred in ("uno", "ord"):
            f = lambda a: self.kind(a, "isnan")
            r = D.OR(D.un(f, x), D.un(f, y))
            return r if I.pred == "uno" else D.NOT(r)
        if isinf(y) or isinf(x):
            p = I.pred
            if isinf(x):
                x = y
                p = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(p, p)
            ninf = p in ("==", ">=", "<=")
            nfin = p in ("<", "<=", "!=")
            return D.un(lambda a: D.ite(self.kind(a, "isnan"), bool(I.extra), D.ite(self.kind(a, "isinf"), ninf, nfin)), x)
        return None

    def absv(self, a):
        return self.D.sign3(a, rmul(rc(-1), a), rc(0), a)

    def usqrt(self, a):
        if a.is_const:
            c = Fraction(a.const)
            from math import isqrt
            if c >= 0:
                n, d = isqrt(c.numerator), isqrt(c.denominator)
                if n * n == c.numerator and d * d == c.denominator:
                    return rc(Fraction(n, d))
        return Rat(pvar(UF("sqrt", (canon(a),))))

    def call(self, F, I, env, mem, owned, cond):
        D, L = self.D, self.L
        cal = I.extra
        args = I.ops[:-1] if I.op == 'call' else I.ops[:-3]
        if not L.LLVMIsAFunction(C.c_void_p(cal)):
            tg = self.val(env, cal)
            if not (isinstance(tg, Ptr) and tg.obj and tg.obj.startswith("@fn:")):
                raise Unsupported(f"indirect call {tg} " + I.text[:100])
            name = tg.obj[4:]
            cal = self.M.funcs[name]
        else:
            name = self.M.name(cal)
        V = lambda j: self.val(env, args[j])
        self.calls.add(name)
        if self.hook:
            r = self.hook(self, name, args, env, mem, owned, cond, I)
            if r is not NotImplemented:
                return r
        if name.startswith("llvm."):
            b = name.split(".")[1]
            if b in ("lifetime", "dbg", "assume", "experimental", "donothing", "prefetch", "invariant", "stacksave", "stackrestore"):
                return None
            if b == "expect":
                return V(0)
            if b == "fabs" or b == "abs":
                return D.un(self.absv, V(0))
            if b == "sqrt":
                return D.un(self.usqrt, V(0))
            if b in ("fmuladd", "fma"):
                return D.bin(radd, D.bin(rmul, V(0), V(1)), V(2))
            if b in ("smax", "umax", "maxnum", "maximum"):
                return D.ite(D.cmp("<", V(0), V(1)), V(1), V(0))
            if b in ("smin", "umin", "minnum", "minimum"):
                return D.ite(D.cmp("<", V(1), V(0)), V(1), V(0))
            if b in ("memcpy", "memmove"):
                self.memcpy(mem, owned, V(0), V(1), V(2), I, cond)
                return None
            if b == "memset":
                p, c, n = V(0), V(1), V(2)
                if not (c.is_const and c.const == 0 and n.is_const and p.off.is_const):
                    raise Unsupported("memset")
                lo, hi = p.off.const, p.off.const + n.const
                cells = dict(mem.get(p.obj, {}))
                for k in list(cells):
                    if k[0] != "fill" and k[0].is_const and lo <= k[0].const < hi:
                        del cells[k]
                cells[("fill", 0)] = cells.get(("fill", 0), ()) + ((lo, hi, True),)
                mem[p.obj] = cells
                owned.add(p.obj)
                return None
            if b in ("cos", "sin", "exp", "log", "floor", "ceil", "pow", "trunc", "round"):
                return self.uf(b, [V(j) for j in range(len(args))])
            if b == "powi":
                return self.uf("pow", [V(0), V(1)])
            if b == "is":
                k = V(1).const if isinstance(V(1), Rat) and V(1).is_const else None
                return D.un(lambda a: self.fpclass(a, int(k)), V(0)) if self.special and k is not None else False
            if b in ("sadd", "ssub", "smul", "uadd", "usub", "umul") and "with.overflow" in name:
                f = {"a": radd, "s": lambda a, b: radd(a, b, -1), "m": rmul}[b[1]]
                return (D.bin(f, V(0), V(1)), False)
            if b == "trap":
                return None
            raise Unsupported(name)
        base = name[:-1] if name.endswith(("f", "l")) and name[:-1] in UF1 | UF2 | {"fabs"} else name
        if base == "fabs":
            return D.un(self.absv, V(0))
        if base == "sqrt":
            return D.un(self.usqrt, V(0))
        if base in UF1 or base in UF2:
            return self.uf(base, [V(j) for j in range(len(args))])
        if name in IGN:
            return rc(0)
        if name in ("exit", "abort", "__assert_fail"):
            return None
        if name == "strlen":
            p = V(0)
            if isinstance(p, Ptr) and p.obj and p.obj.startswith("@") and p.off.is_const:
                L.LLVMGetNamedGlobal.restype = C.c_void_p
                g = L.LLVMGetNamedGlobal(self.M.m, p.obj[1:].encode())
                ty = L.LLVMGlobalGetValueType(C.c_void_p(g))
                i8 = L.LLVMGetElementType(C.c_void_p(ty))
                for k in range(4096):
                    c = self.gload(Ptr(p.obj, radd(p.off, rc(k))), i8)
                    if isinstance(c, Rat) and c.is_const and c.const == 0:
                        return rc(k)
            raise Unsupported("strlen")
        if name in ("memcmp", "bcmp"):
            # only (in)equality is modelled: both ranges must be written as the same sequence of cells
            p, q, n = V(0), V(1), V(2)
            if isinstance(n, Rat) and n.is_const and all(isinstance(z, Ptr) and z.off.is_const for z in (p, q)):
                n = int(n.const)
                cs = []
                for z in (p, q):
                    cs.append({(o.const - z.off.const, s): c for (o, s), c in mem.get(z.obj, {}).items() if o != "fill" and o.is_const and 0 <= o.const - z.off.const < n})
                if set(cs[0]) == set(cs[1]) and sum(s for _, s in cs[0]) == n:
                    eq = True
                    for k in cs[0]:
                        eq = self.D.AND(eq, self.D.cmp("==", cs[0][k], cs[1][k]))
                    return self.D.ite(eq, rc(0), rc(1))
            raise Unsupported("memcmp")
        if name in ("_Znwm", "_Znam", "malloc"):
            return Ptr(self.newobj("heap"), rc(0))
        if name in ("_ZdlPv", "_ZdlPvm", "_ZdaPv", "free"):
            return None
        if name in self.opaque or self.M.is_decl(cal):
            raise Unsupported("call to " + name)
        G = self.getf(name)
        base = self.base
        if self.generic:
            self.base = D.AND(base, cond)       # gate of the call, for the effects recorded inside
        rv, m2 = self.run(name, [V(j) for j in range(len(args))], mem)
        self.base = base
        mem.clear()
        mem.update(m2)
        owned.clear()
        return rv

    def uf(self, name, args):
        def f(*xs):
            for x in xs:
                if isinstance(x, Undef):
                    return x
            if name == "pow" and xs[1].is_const:
                e = Fraction(xs[1].const)
                if e.denominator == 1 and 0 <= e <= 16:
                    r = rc(1)
                    for _ in range(int(e)):
                        r = rmul(r, xs[0])
                    return r
                if e == Fraction(1, 2):
                    return self.usqrt(xs[0])
            if all(x.is_const for x in xs):
                import math
                if name in ("cos", "sin") and xs[0].const == 0:
                    return rc(1 if name == "cos" else 0)
                if name in ("floor", "ceil"):
                    return rc(getattr(math, name)(xs[0].const))
            if self.facts and name == "floor":
                qr = self.facts.quot(xs[0].n, xs[0].d)
                if qr is not None:
                    return Rat(qr[0])
            return Rat(pvar(UF(name, tuple(canon(x) for x in xs))))
        return self.D.apply(f, *args)


class UndefBranch(Exception):
    pass


F_extra = {}
