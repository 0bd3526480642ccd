"""Facts about /repo's C++ (type-checked AST exported by astx) and the walkers the source rules share."""
import hashlib, json, os, re, subprocess, sys, tempfile, fcntl
D = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(D)
sys.path[:0] = [os.path.join(V, "engine")]
from common import REPO
import spec

BUILD = os.path.join(V, "build")
FEATS = ("FTK_HAVE_GMP", "FTK_HAVE_HDF5", "FTK_HAVE_MPI", "FTK_HAVE_MPSOLVE", "FTK_HAVE_NETCDF", "FTK_HAVE_PNG", "FTK_HAVE_TBB", "FTK_HAVE_VTK")
SYS = ["/usr/lib/x86_64-linux-gnu/openmpi/include", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi", "/usr/include/hdf5/serial", "/usr/include/vtk-9.1", "/usr/include/jsoncpp",
       "/usr/include/libxml2", "/usr/include/eigen3", "/usr/include/double-conversion", "/usr/include/utf8cpp", "/usr/include/freetype2"]
EXTRA = """algorithms/cca_bfs algorithms/dijkstra basic/contour_tree basic/shared_union_find features/feature_point_set filters/feature_flow_tracer mesh/regular_mesh ndarray/ndarray_group_stream
numeric/basic_interval numeric/cubic_inequality_solver numeric/cubic_rational_inequality_solver numeric/disjoint_intervals numeric/eye numeric/gcd numeric/inverse_bilinear_interpolation_solver
numeric/inverse_trilinear_interpolation_solver numeric/isnan numeric/linear_inequality_solver numeric/matrix_addition numeric/matrix_decomposition numeric/parallel_vector_solver2 numeric/parallel_vector_solver3
numeric/polynomial numeric/polynomial_solver numeric/quadratic_interpolation numeric/quadratic_rational_inequality_solver numeric/rand numeric/rational_function numeric/rational_number numeric/trilinear_interpolation
numeric/underdetermined_eigen_solver numeric/vector_addition numeric/zeros utils/async_ptr""".split()


def sh(a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **k)


def astx_bin():
    """compile the exporter if it is missing or older than its source"""
    src = os.path.join(V, "astx", "astx.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "astx-" + h)
    if not os.path.exists(out):
        tmp = out + f".{os.getpid()}"
        r = sh(["clang++-18", "-std=c++17", "-O1", "-fno-rtti", "-w", "-I/usr/lib/llvm-18/include", src, "-o", tmp, "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18"])
        if r.returncode:
            raise RuntimeError("cannot build the AST exporter: " + r.stderr[-2000:])
        os.rename(tmp, out)
    return out


def tree_hash():
    h = hashlib.sha256()
    for base in ("include", "src"):
        for d, ds, fs in os.walk(os.path.join(REPO, base)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f.endswith((".hh", ".h", ".cpp", ".cc", ".in", ".cu", ".cuh", ".hpp", ".hxx", ".txt")):
                    h.update(p.encode() + b"\0")
                    h.update(open(p, "rb").read())
    return h.hexdigest()[:20]


def flags(cfg, feats=FEATS, omp=False):
    f = ["-std=gnu++17", "-DDIY_NO_THREADS", "-DFMT_SHARED", "-DNDEBUG", "-fPIC", "-w", "-ferror-limit=0", "-I" + os.path.join(REPO, "include"), "-I" + cfg]
    for s in SYS:
        f += ["-isystem", s]
    if omp:
        f.append("-fopenmp")
    return f + ["-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]


def export(key, main, feats=FEATS, omp=False):
    """run the exporter over a generated main file; cached in build/ under the hash of the source tree"""
    astx = astx_bin()
    name = hashlib.sha256((key + main + tree_hash() + os.path.basename(astx) + REPO).encode()).hexdigest()[:20]
    out = os.path.join(BUILD, f"facts-{key}-{name}.jsonl")
    if not os.path.exists(out):
        for f in os.listdir(BUILD):
            if f.startswith(f"facts-{key}-") and REPO == "/repo":
                try:
                    os.unlink(os.path.join(BUILD, f))
                except OSError:
                    pass
        with tempfile.TemporaryDirectory() as td:
            spec.make_config(td, feats)
            mp = os.path.join(td, "main.cpp")
            open(mp, "w").write(main)
            tmp = out + f".{os.getpid()}"
            r = sh([astx, REPO + "/", tmp, "--"] + flags(td, feats, omp) + [mp])
            if not os.path.exists(tmp) or os.path.getsize(tmp) == 0:
                raise RuntimeError("AST export failed: " + r.stderr[-1500:])
            errs = [l for l in r.stderr.split("\n") if "error:" in l]
            open(out + ".err", "w").write("\n".join(errs))
            os.rename(tmp, out)
    return out


MAIN = f'#include "{REPO}/src/cli/ftk.cpp"\n' + "".join(f"#include <ftk/{h}.hh>\n" for h in EXTRA) + open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "instances.hh")).read()


class Facts:
    def __init__(self, path):
        self.funcs, self.records, self.globals, self.enums = [], [], [], []
        for l in open(path):
            o = json.loads(l)
            {"func": self.funcs, "record": self.records, "global": self.globals, "enum": self.enums}[o["kind"]].append(o)
        self.errors = [l for l in open(path + ".err").read().split("\n") if l]
        self.byid = {f["id"]: f for f in self.funcs}
        self.byq = {}
        for f in self.funcs:
            self.byq.setdefault(f["q"], []).append(f)
        self.rec = {}
        for r in self.records:
            self.rec.setdefault(r["q"], []).append(r)
        # overriding: base method id -> overriding function ids (transitive)
        self.overriders = {}
        for r in self.records:
            for m in r["methods"]:
                for b in m["over"]:
                    self.overriders.setdefault(b, set()).add(m["id"])
        self.derived = {}
        for r in self.records:
            for b in r["bases"]:
                self.derived.setdefault(norm(b), set()).add(norm(r["t"]))

    def over_all(self, i):
        out, todo = set(), [i]
        while todo:
            for x in self.overriders.get(todo.pop(), ()):
                if x not in out:
                    out.add(x)
                    todo.append(x)
        return out

    def functions(self, file=None, name=None, cls=None, tmpl=("", "inst")):
        return [f for f in self.funcs if f["tmpl"] in tmpl and (file is None or f["file"].endswith(file)) and (name is None or f["n"] == name) and (cls is None or short(f.get("cls", "")) == cls)]

    def targets(self, call):
        """functions a call may reach: the direct callee, or every override when the call is virtual"""
        fid = call.get("fid")
        if fid is None:
            return []
        ids = {fid}
        if call.get("virt") and not call.get("qualified"):
            ids |= self.over_all(fid)
        return [self.byid[i] for i in ids if i in self.byid]


_main = None


def main_facts():
    global _main
    if _main is None:
        _main = Facts(export("main", MAIN))
        if len(_main.funcs) < 1000:
            raise RuntimeError(f"only {len(_main.funcs)} functions exported: {_main.errors[:3]}")
    return _main


def norm(t):
    return re.sub(r"\b(struct|class) ", "", t)


def short(q):
    """class name without namespace and template arguments"""
    return re.sub(r"<.*", "", q).split("::")[-1]


FIELDS = ("init", "cvar", "cond", "then", "else", "var", "range", "inc", "lhs", "body", "callee", "e", "sub")


def kids(n):
    """children in evaluation/source order"""
    k = n["k"]
    if k == "ForStmt":
        return [x for x in (n.get("init"), n.get("cond"), n.get("body"), n.get("inc")) if x]
    if k == "CXXForRangeStmt":
        return [x for x in (n.get("range"), n.get("var"), n.get("body")) if x]
    if k == "DoStmt":
        return [x for x in (n.get("body"), n.get("cond")) if x]
    out = []
    for f in FIELDS:
        v = n.get(f)
        if isinstance(v, dict):
            out.append(v)
    out += [x for x in n.get("params", []) if isinstance(x, dict) and x.get("init")]
    out += [x for x in n.get("c", []) if isinstance(x, dict)]
    out += [x for x in n.get("catch", []) if isinstance(x, dict)]
    return out


def walk(n, lambdas=True):
    st = [n]
    while st:
        x = st.pop()
        if not isinstance(x, dict):
            continue
        yield x
        if x["k"] == "LambdaExpr" and not lambdas and x is not n:
            continue
        st.extend(reversed(kids(x)))


def calls(n, lambdas=True):
    for x in walk(n, lambdas):
        if "callee" in x or x["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            yield x


def callee_name(c):
    if "f" in c:
        return c["f"].split("::")[-1] if "operator" not in c["f"] else c["f"][c["f"].rindex("operator"):]
    cal = c.get("callee")
    return cal.get("n", "") if cal else c.get("ctor", "")


def base_obj(c):
    """the object expression of a member call, or None"""
    cal = c.get("callee")
    if cal and cal["k"] in ("MemberExpr", "CXXDependentScopeMemberExpr", "UnresolvedMemberExpr") and cal.get("c"):
        return cal["c"][0]
    return None


def text(n):
    """compact rendering of an expression, for messages and structural comparison"""
    if n is None:
        return ""
    k = n["k"]
    if k in ("DeclRefExpr",):
        return n["n"]
    if k in ("MemberExpr", "CXXDependentScopeMemberExpr", "UnresolvedMemberExpr"):
        b = n.get("c") or []
        if not b or b[0]["k"] == "CXXThisExpr":
            return n["n"]
        return text(b[0]) + "." + n["n"]
    if k == "CXXThisExpr":
        return "this"
    if k in ("IntegerLiteral", "FloatingLiteral", "CXXBoolLiteralExpr", "CharacterLiteral"):
        return str(n.get("v"))
    if k == "StringLiteral":
        return json.dumps(n.get("v"))
    if "callee" in n:
        a = n.get("c", [])
        if n.get("oop"):
            o = n["oop"]
            if o == "()":
                return text(a[0]) + "(" + ", ".join(text(x) for x in a[1:]) + ")"
            if o == "[]":
                return text(a[0]) + "[" + text(a[1]) + "]"
            if len(a) == 2:
                return text(a[0]) + " " + o + " " + text(a[1])
            return o + "".join(text(x) for x in a)
        return text(n["callee"]) + "(" + ", ".join(text(x) for x in a) + ")"
    c = [x for x in n.get("c", []) if isinstance(x, dict)]
    if k in ("BinaryOperator", "CompoundAssignOperator"):
        return text(c[0]) + " " + n["op"] + " " + text(c[1])
    if k == "UnaryOperator":
        return (text(c[0]) + n["op"][1:]) if n["op"].startswith("p") else n["op"] + text(c[0])
    if k == "ArraySubscriptExpr":
        return text(c[0]) + "[" + text(c[1]) + "]"
    if k == "ConditionalOperator":
        return text(c[0]) + " ? " + text(c[1]) + " : " + text(c[2])
    if k == "LambdaExpr":
        return "[lambda]"
    if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXFunctionalCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "InitListExpr", "CXXUnresolvedConstructExpr"):
        if len(c) == 1 and k not in ("InitListExpr",):
            return text(c[0])
        return "{" + ", ".join(text(x) for x in c) + "}"
    if k == "Var":
        return n["n"] + ((" = " + text(n["init"])) if n.get("init") else "")
    return k + "(" + ", ".join(text(x) for x in c) + ")"


def loc(f, n=None):
    return f"{f['file']}:{(n or f).get('l', f['l'])}"
