"""Compile-fail witnesses: the simplex tables of the regular mesh are evaluated by the compiler's constant evaluator and constrained by static_assert."""
import hashlib, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import srclib
from srclib import REPO, BUILD, V, sh
import spec

CE = os.path.join(V, "checks", "ce")
BITS = ["COUNT: the number of types of each dimension is not the number of simplices per unit cell", "SHAPE: a type does not have k+1 distinct vertices of the unit cube",
        "CANON: two (type, corner) pairs can denote the same simplex", "VOLUME: a top-dimensional type is not of volume 1/n!", "SIDES: sides() is not the k+1 distinct faces on the element's own vertices",
        "SIDEOF: side_of() is not the inverse of sides()", "FACET: an (n-1)-simplex does not separate exactly two n-simplices", "ORDINAL: the ordinal/interval split is not 'all vertices at one time' or does not partition the types",
        "VERTICES: vertices() is not corner + unit vertices", "LOOKUP"]
HDR = "include/ftk/mesh/simplicial_regular_mesh.hh"


def cexpr_bin():
    src = os.path.join(V, "astx", "cexpr.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "cexpr-" + h)
    if not os.path.exists(out):
        tmp = out + f".{os.getpid()}"
        r = sh(["clang++-18", "-std=c++17", "-O1", "-fno-rtti", "-w", "-I/usr/lib/llvm-18/include", src, "-o", tmp, "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18"])
        if r.returncode:
            raise RuntimeError("cannot build the constexpr rewriter: " + r.stderr[-2000:])
        os.rename(tmp, out)
    return out


def run(p, tier):
    import common
    R = common.Report(p["id"], p["technique"], "The mesh header is copied with every function marked constexpr (nothing else changed); the compiler's constant evaluator computes the tables and the "
                      "element relations and static_assert states the property over all types of every dimension. The tables depend only on the mesh dimension, so the evaluation is exhaustive for it.")
    td = tempfile.mkdtemp(prefix="ftkce")
    try:
        spec.make_config(td, ())
        os.makedirs(os.path.join(td, "cx/ftk/mesh"))
        base = os.path.join(td, "base.cpp")
        open(base, "w").write('#include "pre.hh"\n')
        inc = ["-I" + CE, "-I" + os.path.join(CE, "stub"), "-I" + td, "-I" + os.path.join(REPO, "include")]
        files = [os.path.join(REPO, "include/ftk/mesh", f) for f in ("lattice.hh", "simplicial_regular_mesh.hh")]
        sh([cexpr_bin(), os.path.join(td, "cx/ftk/mesh"), ",".join(os.path.realpath(f) for f in files), "--", "-std=c++20", "-w", "-ferror-limit=0", "-DDIY_NO_THREADS", *inc, "-resource-dir", "/usr/lib/llvm-18/lib/clang/18", base])
        h = os.path.join(td, "cx/ftk/mesh/simplicial_regular_mesh.hh")
        if not os.path.exists(h):
            R.error("the mesh header could not be transformed")
            return R
        s = open(h).read()
        mark = "  typedef simplicial_regular_mesh_element iterator;\n"
        raw = mark in s
        s = s.replace(mark, mark + "  struct raw_t {}; constexpr simplicial_regular_mesh(raw_t, int n) : nd_(n), lattice_(n) {}\n", 1)
        open(h, "w").write(s)

        def unit(name, body, timeout=840):
            f = os.path.join(td, name + ".cpp")
            open(f, "w").write('#include "pre.hh"\n' + body)
            try:
                r = sh(["clang++-18", "-std=c++23", "-w", "-Wno-invalid-constexpr", "-DDIY_NO_THREADS", "-fconstexpr-steps=2147483647", "-fbracket-depth=1024", "-fsyntax-only", "-I" + os.path.join(td, "cx"), *inc, f], timeout=timeout)
            except subprocess.TimeoutExpired:
                return name, None, "timeout"
            return name, r.returncode, r.stderr
        asserts = "".join(f'static_assert((R & {1 << i}) == 0, "{b}");\n' for i, b in enumerate(BITS))
        jobs = []
        for n in (2, 3):
            jobs.append((f"mesh{n}d", f"constexpr unsigned R = whole({n});\n" + asserts))
        if raw:
            for k in (4, 3, 2) if tier != "thorough" else (4, 3, 2, 1, 0):
                jobs.append((f"types4d_{k}", f"constexpr unsigned ev() {{ M m(M::raw_t{{}}, 4); m.unit_simplices.resize(5); m.unit_simplices[{k}] = m.enumerate_unit_simplices(4, {k}); "
                             f"unsigned r = shapes(m, 4, {k}); if (m.unit_simplices[{k}].size() != {[1, 15, 50, 60, 24][k]}) r |= COUNT; return r; }}\nconstexpr unsigned R = ev();\n" + asserts))
            if tier == "thorough":
                # boundary and coboundary of the 4-dimensional tables, one slice of types per unit; the k-simplex lists are recomputed by the code in each slice
                cnt = [1, 15, 50, 60, 24]
                for k in range(0, 5):
                    step = {0: 1, 1: 8, 2: 5, 3: 8, 4: 4}[k]
                    for t0 in range(0, cnt[k], step):
                        t1 = min(cnt[k], t0 + step)
                        need = sorted({k, max(k - 1, 0), min(k + 1, 4)})
                        b = ("constexpr unsigned ev() { M m(M::raw_t{}, 4); m.ntypes_.resize(5); m.unit_simplices.resize(5); m.unit_simplex_sides.resize(5); m.unit_simplex_side_of.resize(5);\n"
                             + "".join(f"m.unit_simplices[{q}] = m.enumerate_unit_simplices(4, {q}); m.ntypes_[{q}] = m.unit_simplices[{q}].size(); m.unit_simplex_sides[{q}].resize({cnt[q]}); m.unit_simplex_side_of[{q}].resize({cnt[q]});\n" for q in need)
                             + f"unsigned r = 0; for (int t = {t0}; t < {t1}; t ++) {{ m.unit_simplex_sides[{k}][t] = m.enumerate_unit_simplex_sides({k}, t); m.unit_simplex_side_of[{k}][t] = m.enumerate_unit_simplex_side_of({k}, t);\n"
                             + f"r |= boundary(m, 4, {k}, t);" + (f" r |= coboundary(m, 4, {k}, t, true);" if k < 4 else "") + " }\nreturn r; }\nconstexpr unsigned R = ev();\n" + asserts)
                        jobs.append((f"rel4d_{k}_{t0}", b))
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda j: unit(*j, timeout=840 if tier != "thorough" else 7200), jobs))
        done = 0
        for name, rc, err in res:
            if rc == 0:
                done += 1
                continue
            fails = [b for b in BITS if rc is not None and f"{b}" in err and "static assertion failed" in err]
            if fails:
                for b in fails:
                    R.violation(f"{name}:{b.split(':')[0]}", f"{HDR} ({name})", f"static_assert refutes the tables: {b}")
            else:
                e = [l for l in err.split("\n") if "error" in l or "note" in l][:6]
                oob = [l for l in err.split("\n") if "dereferenced one-past-the-end" in l or "out of bounds" in l or "past the end" in l or "assigned to object outside its lifetime" in l]
                if oob:
                    R.violation(f"{name}:UB", f"{HDR} ({name})", "the constant evaluator meets undefined behaviour while building the tables: " + "; ".join(oob)[:400])
                else:
                    R.error(f"{name}: not decided: " + " | ".join(e)[:700])
        R.need(done + len(R.viol) > 0, "no unit was evaluated")
        R.cov.update(units=len(jobs), accepted=done, assertions=len(jobs) * len(BITS), dimensions="2, 3 complete; 4: types" + (", sides, side_of" if tier == "thorough" else ""), rule="; ".join(BITS[:-1]))
        return R
    finally:
        shutil.rmtree(td, ignore_errors=True)
