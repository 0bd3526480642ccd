"""Minimal loader of LLVM IR through the LLVM-C API (libLLVM-18): functions, blocks, instructions."""
import ctypes as C
import subprocess, os, re

_L = None


def lib():
    global _L
    if _L is None:
        _L = C.CDLL("libLLVM-18.so")
        L = _L
        vp = C.c_void_p
        for n in """LLVMContextCreate LLVMGetFirstFunction LLVMGetNextFunction LLVMGetFirstBasicBlock LLVMGetNextBasicBlock
            LLVMGetFirstInstruction LLVMGetNextInstruction LLVMTypeOf LLVMGetOperand LLVMGetIncomingValue LLVMGetIncomingBlock
            LLVMGetSuccessor LLVMGetParam LLVMGetCalledValue LLVMGetGEPSourceElementType LLVMGetElementType LLVMStructGetTypeAtIndex
            LLVMGetInitializer LLVMGetAggregateElement LLVMGetAllocatedType LLVMGetModuleDataLayout LLVMGetInstructionParent
            LLVMGetFirstGlobal LLVMGetNextGlobal LLVMBasicBlockAsValue LLVMValueAsBasicBlock LLVMGetBasicBlockTerminator LLVMGetSwitchDefaultDest
            LLVMGlobalGetValueType LLVMGetArrayElement LLVMConstIntGetZExtValue_""".split():
            if hasattr(L, n):
                getattr(L, n).restype = vp
        L.LLVMConstIntGetSExtValue.restype = C.c_longlong
        L.LLVMConstRealGetDouble.restype = C.c_double
        L.LLVMGetValueName2.restype = C.c_char_p
        L.LLVMABISizeOfType.restype = C.c_ulonglong
        L.LLVMOffsetOfElement.restype = C.c_ulonglong
        L.LLVMGetArrayLength2.restype = C.c_ulonglong
        L.LLVMPrintValueToString.restype = C.c_char_p
        L.LLVMPrintTypeToString.restype = C.c_char_p
        L.LLVMGetIndices.restype = C.POINTER(C.c_uint)
        L.LLVMGetMDString.restype = C.c_char_p
    return _L


OPS = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 66: "fneg", 8: "add", 9: "fadd", 10: "sub", 11: "fsub",
       12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr",
       22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store", 29: "gep", 30: "trunc", 31: "zext",
       32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint",
       40: "inttoptr", 41: "bitcast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select", 50: "extractelement",
       51: "insertelement", 52: "shufflevector", 53: "extractvalue", 54: "insertvalue", 68: "freeze", 55: "fence", 56: "cmpxchg", 57: "atomicrmw", 58: "resume", 59: "landingpad"}
IPRED = {32: "==", 33: "!=", 34: ">", 35: ">=", 36: "<", 37: "<=", 38: ">", 39: ">=", 40: "<", 41: "<="}
FPRED = {0: "false", 1: "==", 2: ">", 3: ">=", 4: "<", 5: "<=", 6: "!=", 7: "ord", 8: "uno", 9: "==", 10: ">", 11: ">=", 12: "<", 13: "<=", 14: "!=", 15: "true"}
TK = {0: "void", 1: "half", 2: "float", 3: "double", 4: "x86_fp80", 5: "fp128", 7: "label", 8: "int", 9: "function", 10: "struct", 11: "array", 12: "ptr", 13: "vector", 14: "metadata"}


class Inst:
    __slots__ = ("v", "op", "ops", "ty", "pred", "extra", "text_", "blk")

    @property
    def text(self):
        return lib().LLVMPrintValueToString(C.c_void_p(self.v)).decode(errors="replace").strip()


class Block:
    __slots__ = ("v", "insts", "succ", "name", "idx")


class Func:
    __slots__ = ("v", "name", "blocks", "params", "bmap")


class Module:
    def __init__(self, path):
        L = lib()
        self.ctx = C.c_void_p(L.LLVMContextCreate())
        buf, msg, m = C.c_void_p(), C.c_char_p(), C.c_void_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError(msg.value)
        if L.LLVMParseIRInContext(self.ctx, buf, C.byref(m), C.byref(msg)):
            raise RuntimeError(msg.value)
        self.m = m
        self.td = C.c_void_p(L.LLVMGetModuleDataLayout(m))
        self.funcs = {}
        f = L.LLVMGetFirstFunction(m)
        while f:
            n = self.name(f)
            self.funcs[n] = f
            f = L.LLVMGetNextFunction(C.c_void_p(f))

    def name(self, v):
        n = C.c_size_t()
        s = lib().LLVMGetValueName2(C.c_void_p(v), C.byref(n))
        return s.decode(errors="replace") if s else ""

    def tyinfo(self, t):
        L = lib()
        k = TK.get(L.LLVMGetTypeKind(C.c_void_p(t)), "?")
        return k

    def intw(self, t):
        return lib().LLVMGetIntTypeWidth(C.c_void_p(t))

    def size(self, t):
        return lib().LLVMABISizeOfType(self.td, C.c_void_p(t))

    def is_decl(self, f):
        return bool(lib().LLVMIsDeclaration(C.c_void_p(f)))

    def load_func(self, name):
        L = lib()
        f = self.funcs[name]
        F = Func()
        F.v, F.name, F.blocks, F.bmap = f, name, [], {}
        F.params = [L.LLVMGetParam(C.c_void_p(f), i) for i in range(L.LLVMCountParams(C.c_void_p(f)))]
        b = L.LLVMGetFirstBasicBlock(C.c_void_p(f))
        while b:
            B = Block()
            B.v, B.insts, B.succ, B.idx = b, [], [], len(F.blocks)
            F.blocks.append(B)
            F.bmap[b] = B
            i = L.LLVMGetFirstInstruction(C.c_void_p(b))
            while i:
                I = Inst()
                I.v = i
                I.blk = B
                I.op = OPS.get(L.LLVMGetInstructionOpcode(C.c_void_p(i)), "?%d" % L.LLVMGetInstructionOpcode(C.c_void_p(i)))
                I.ty = L.LLVMTypeOf(C.c_void_p(i))
                n = L.LLVMGetNumOperands(C.c_void_p(i))
                I.pred = I.extra = None
                if I.op == "phi":
                    k = L.LLVMCountIncoming(C.c_void_p(i))
                    I.ops = [(L.LLVMGetIncomingValue(C.c_void_p(i), j), L.LLVMGetIncomingBlock(C.c_void_p(i), j)) for j in range(k)]
                else:
                    I.ops = [L.LLVMGetOperand(C.c_void_p(i), j) for j in range(n)]
                if I.op == "icmp":
                    p = L.LLVMGetICmpPredicate(C.c_void_p(i))
                    I.pred = IPRED[p]
                    I.extra = "u" if 34 <= p <= 37 else "s"
                elif I.op == "fcmp":
                    p = L.LLVMGetFCmpPredicate(C.c_void_p(i))
                    I.pred, I.extra = FPRED[p], p >= 8      # extra: unordered
                elif I.op == "gep":
                    I.extra = L.LLVMGetGEPSourceElementType(C.c_void_p(i))
                elif I.op == "alloca":
                    I.extra = L.LLVMGetAllocatedType(C.c_void_p(i))
                elif I.op in ("extractvalue", "insertvalue"):
                    k = L.LLVMGetNumIndices(C.c_void_p(i))
                    p = L.LLVMGetIndices(C.c_void_p(i))
                    I.extra = [p[j] for j in range(k)]
                elif I.op in ("call", "invoke"):
                    I.extra = L.LLVMGetCalledValue(C.c_void_p(i))
                if I.op in ("br", "switch", "invoke", "ret", "unreachable", "resume", "indirectbr"):
                    B.succ = [L.LLVMGetSuccessor(C.c_void_p(i), j) for j in range(L.LLVMGetNumSuccessors(C.c_void_p(i)))] if I.op in ("br", "switch", "invoke") else []
                B.insts.append(I)
                i = L.LLVMGetNextInstruction(C.c_void_p(i))
            b = L.LLVMGetNextBasicBlock(C.c_void_p(b))
        return F


PIPE_U = ("cgscc(inline),function(sroa,early-cse,simplifycfg,loop-simplify,lcssa,loop(loop-rotate),loop-mssa(licm),"
        "loop(indvars),sroa,early-cse,sccp,simplifycfg,loop-simplify,lcssa),globaldce")


# loops keep the form they have in the source: one symbolic iteration is analysed, not an unrolling
PIPE_G = ("cgscc(inline),function(sroa,early-cse,simplifycfg,loop-simplify,lcssa,sroa,early-cse,sccp,simplifycfg,loop-simplify,lcssa),globaldce")


def compile_ir(cpp, out, includes, std="gnu++17", defs=(), opt=True, clang="clang++", extra=(), api=None, exceptions=False, noinline=(), generic=False):
    """api: keep only these functions (and what they reach); noinline: substrings of function names that stay calls"""
    raw = out + ".raw.ll"
    cmd = [clang, "-std=" + std, "-O1", "-Xclang", "-disable-llvm-passes", "-ffp-contract=off", "-fno-jump-tables"] + ([] if exceptions else ["-fno-exceptions"]) + [
           "-fno-access-control", "-w", "-S", "-emit-llvm", cpp, "-o", raw] + ["-I" + i for i in includes] + ["-D" + d for d in defs] + list(extra)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise CompileError(brief(r.stderr))
    PIPE = PIPE_G if generic else PIPE_U
    pipe, ex = PIPE, []
    if api is not None:
        pipe, ex = "internalize,globaldce," + ("lowerinvoke,function(simplifycfg)," if exceptions else "") + PIPE, ["-internalize-public-api-list=" + ",".join(api)]
        if noinline:
            pre = out + ".pre.ll"
            r = subprocess.run(["/usr/lib/llvm-18/bin/opt", "-S", "-passes=internalize,globaldce", *ex, raw, "-o", pre], capture_output=True, text=True)
            if r.returncode:
                raise CompileError(brief(r.stderr))
            L = []
            always = {m.group(1) for m in re.finditer(r"(?m)^attributes (#\d+) = \{[^}]*\balwaysinline\b", open(pre).read())}
            for l in open(pre):
                if l.startswith("define ") and not always & set(re.findall(r" (#\d+)", l)) and any(x in l[l.index("@"):].split("(")[0] for x in noinline):
                    i = l.index("(", l.index("@"))
                    d = 0
                    for j in range(i, len(l)):
                        d += (l[j] == "(") - (l[j] == ")")
                        if d == 0:
                            break
                    j += 1
                    for w in (" unnamed_addr", " local_unnamed_addr"):
                        if l[j:].startswith(w):
                            j += len(w)
                    l = l[:j] + " noinline" + l[j:]
                L.append(l)
            open(raw, "w").write("".join(L))
            os.unlink(pre)
    r = subprocess.run(["/usr/lib/llvm-18/bin/opt", "-S", *(["-inline-threshold=1000000", "-inlinehint-threshold=1000000"] if api is None else ["-inline-threshold=200", "-inlinehint-threshold=200"]), *ex,
                        "-passes=" + pipe, raw, "-o", out], capture_output=True, text=True)
    if r.returncode:
        raise CompileError(brief(r.stderr))
    os.unlink(raw)
    return out


def brief(e):
    return "\n".join([l[:300] for l in e.split("\n") if "error" in l][:6]) or e[-800:]


class CompileError(Exception):
    pass
