"""Configuration: setters store what they are given, getters return it, the JSON interface hands every option to its own setter (paths.py)."""
import re
import srclib as s
from paths import An, Un, Path, show, showlit, lit, neg

ALIAS = {}
# parameters a setter may ignore, with the reason
IGNORED = {}
# option of the JSON interface -> setter
OPT = {"root_proc": "set_root_proc", "nthreads": "set_number_of_threads", "accelerator": "use_accelerator", "thread_backend": "use_thread_backend", "nblocks": "set_number_of_blocks", "type_filter": "set_type_filter"}
OPT.update({k: "set_" + k for k in ("enable_robust_detection", "enable_computing_degrees", "enable_streaming_trajectories", "enable_discarding_interval_points", "enable_discarding_degenerate_points", "enable_ignoring_degenerate_points")})


def fields(F, A, cls):
    out = {}
    for c in A.chain(cls):
        for r in F.records:
            if re.sub(r"<.*", "", s.norm(r["q"])) == c:
                for f in r["fields"]:
                    out.setdefault(f["n"], f)
    return out


def contains(v, x):
    if v == x:
        return True
    if isinstance(v, tuple):
        return any(contains(y, x) for y in v)
    return False


def depends(v, x, A):
    """v is computed from the place x"""
    if contains(v, x):
        return True
    return False


def contains_any(v, names):
    return any(contains(v, ("m", x)) for x in names)


def plain(v):
    while isinstance(v, tuple) and v and v[0] == "at":
        v = v[1]
    return v


def norm(n):
    return n.strip("_").lower()


def accessors(F, R):
    ns = ng = 0
    seen = set()
    for f in F.funcs:
        m = re.match(r"(set|get|use)_(\w+)$", f["n"])
        if not m or not f.get("cls") or f["file"].startswith("include/ftk/external") or "legacy" in f["file"]:
            continue
        if f["tmpl"] == "pattern" and any(g["tmpl"] == "inst" and g["l"] == f["l"] and g["file"] == f["file"] for g in F.funcs):
            continue
        if (f["file"], f["l"]) in seen or f.get("static"):
            continue
        seen.add((f["file"], f["l"]))
        A = An(F, f["cls"], lambda nm, b, a, n, g: nm, lambda g: False)
        fl = fields(F, A, f["cls"])
        where = s.loc(f)
        own = [x for x in fl if norm(x) == norm(m.group(2))]
        if m.group(1) == "get":
            if f["params"] or not own or "void" == f["ret"]:
                continue
            try:
                ps = A.run(f)
            except Un:
                continue
            ng += 1
            for p in ps:
                r = plain(p.ret[1]) if p.ret else None
                if r is not None and not contains_any(r, fl) and any(y.get("n") in own or s.callee_name(y) for y in s.walk(f["body"]) if y["k"] in ("MemberExpr", "CXXDependentScopeMemberExpr") or y["k"].endswith("CallExpr")):
                    continue            # a converted copy, or another accessor's result
                if r is None or not any(contains(r, ("m", x)) for x in own):
                    R.violation(f"{s.short(f['cls'])}::{f['n']}", where, f"{f['n']} of {s.short(f['cls'])} returns {show(r)} instead of {own[0]}")
            continue
        if not f["params"]:
            continue
        try:
            ps = A.run(f)
        except Un as e:
            ns += 1
            # at least: every parameter is used
            for prm in f["params"]:
                if not any(x.get("id") == prm["id"] for x in s.walk(f["body"])):
                    R.violation(f"{s.short(f['cls'])}::{f['n']}#{prm['n']}", where, f"{f['n']} of {s.short(f['cls'])} ignores its argument {prm['n']}")
            continue
        ns += 1
        for p in ps:
            if any(e[0] == "call" and e[1] == "fatal" for e in p.ev):
                continue
            for i, prm in enumerate(f["params"]):
                v = ("l", prm["n"] + "#")
                key = f"{s.short(f['cls'])}::{f['n']}#{prm['n'] or i}"
                if key in IGNORED:
                    continue
                used = False
                for e in p.ev:
                    if e[0] == "set" and contains(e[2], v) or e[0] == "call" and (contains(e[3], v) or contains(e[2], v)):
                        used = True
                    if e[0] == "loop" and contains(e, v):
                        used = True
                if any(contains(l, v) for l in p.lits) or any(contains(x, v) for x in p.mem.values()):
                    used = True
                if not used and not reads(f, prm):
                    R.violation(key, where, f"{f['n']} of {s.short(f['cls'])} ignores its argument {prm['n']}")
                elif not used and not any(e[0] == "call" and str(e[1]).startswith("set_") for e in p.ev):
                    R.violation(key, where, f"{f['n']} of {s.short(f['cls'])} does not store its argument {prm['n']} (when {' and '.join(map(showlit, p.lits)) or 'always'})")
            if own and len(f["params"]) == 1:
                v = ("l", f["params"][0]["n"] + "#")
                t = fl[own[0]]["t"]
                got = p.mem.get(("m", own[0]))
                same = s.norm(re.sub(r"\bconst\b|&", "", f["params"][0]["t"])).strip() == s.norm(re.sub(r"\bconst\b|&", "", t)).strip()
                if same and plain(got) != v:
                    R.violation(f"{s.short(f['cls'])}::{f['n']}#value", where, f"{f['n']} of {s.short(f['cls'])} sets {own[0]} to {show(got) if got else 'nothing'} instead of its argument")
    return ns, ng


def reads(f, prm):
    return any(x.get("id") == prm["id"] for x in s.walk(f["body"]))


def keys(v, out):
    """the option names j["..."], j.contains("...") inside a value"""
    if isinstance(v, tuple):
        if v and v[0] == "[]" and v[1] == ("m", "j") and v[2] and v[2][0] == "str":
            out.add(v[2][1])
        if v and v[0] == "call" and v[1] in ("contains", "at", "value", "count") and v[2] == ("m", "j") and v[3] and v[3][0][0] == "str":
            out.add(v[3][0][1])
        for x in v:
            keys(x, out)
    return out


def json_options(F, R):
    fs = [f for f in F.funcs if f["n"] == "configure_tracker_general"]
    if not fs:
        R.error("configure_tracker_general not found")
        return 0
    f = fs[0]
    where = s.loc(f)
    # the function is one conditional after another: each statement is analysed on its own
    n = 0
    done, base = {}, Path()
    A = An(F, f.get("cls", ""), lambda nm, b, a, nn, g: nm if nm.startswith(("set_", "use_")) or nm == "fatal" else None, lambda g: False)
    A.unroll = 16
    for st in f["body"]["c"]:
        if not st:
            continue
        try:
            ps = A.stmts([base.copy()], st)
        except Un as e:
            R.error(f"{s.loc(f, st)}: {e} is not followed")
            continue
        if st["k"] == "DeclStmt" and len(ps) == 1 and not ps[0].ev:
            base = ps[0]
            continue
        for p in ps:
            for e in p.ev:
                if e[0] != "call" or not e[1].startswith(("set_", "use_")) or e[1] in ("set_communicator", "set_input_array_partial"):
                    continue
                n += 1
                ks = keys(e[3], set())
                for l in p.lits:
                    ks |= keys(l, set())
                ks |= {k for k in strings(p, e)}
                want = [k for k, v in OPT.items() if v == e[1]]
                if not want:
                    R.error(f"{s.loc(f, {'l': e[4]})}: {e[1]} has no option in the table")
                    continue
                if ks != set(want):
                    R.violation(f"json#{e[1]}", s.loc(f, {"l": e[4]}), f"{e[1]} is driven by the option{'s' if len(ks) != 1 else ''} {', '.join(sorted(ks)) or 'none'} instead of {want[0]}")
                    continue
                done.setdefault(e[1], []).append((p, e))
                a = e[3][0] if e[3] else None
                if a is not None and a[0] == "int" and want[0].startswith("enable_"):
                    pos = [l for l in p.lits if keys(l, set())]
                    truth = [l for l in pos if "contains" not in repr(l)]
                    val = truth and truthof(truth[0])
                    if not truth or val is None or bool(a[1]) != val:
                        R.violation(f"json#{e[1]}", s.loc(f, {"l": e[4]}), f"{e[1]} receives {show(a)} when {' and '.join(map(showlit, p.lits)) or 'always'}")
    for k, v in OPT.items():
        if v not in done:
            R.violation(f"json#{v}", where, f"the option {k} is never handed to the tracker ({v})")
    # type filter: every name sets its own bit
    bits = {"min": "CRITICAL_POINT_2D_MINIMUM", "max": "CRITICAL_POINT_2D_MAXIMUM", "saddle": "CRITICAL_POINT_2D_SADDLE"}
    val = {c["n"]: c["v"] for e in F.enums for c in e["consts"]}
    seen = set()
    for p, e in done.get("set_type_filter", []):
        n += 1
        on, told = set(), set()
        for l in p.lits:
            for k in bits:
                if contains(l, ("str", k)):
                    seen.add(k)
                    told.add(k)
                    if (l[1][0] != "eq0") == l[2]:
                        on.add(k)
        want = 0
        for k in on:
            want |= val[bits[k]]
        if e[3][0][0] != "int" or e[3][0][1] != want:
            R.violation(f"json#type_filter {'+'.join(sorted(on))}", s.loc(f, {"l": e[4]}), f"the type filter with {' and '.join(sorted(on)) or 'none'} of its names selects {show(e[3][0])} instead of {want}")
        if told != set(bits):
            R.violation(f"json#type_filter without {'+'.join(sorted(set(bits) - told))}", s.loc(f, {"l": e[4]}), f"the type filter {show(e[3][0])} does not depend on {' and '.join(sorted(set(bits) - told))}")
    for k in set(bits) - seen:
        R.violation(f"json#type_filter {k}", where, f"the type filter name \"{k}\" is not recognised")
    return n


def strings(p, e):
    """options that a local variable was read from"""
    out = set()
    for k, v in p.mem.items():
        if k[0] == "l" and contains(e[3], k):
            keys(v, out)
    return out


def truthof(l):
    f, pos = l[1], l[2]
    if f[0] == "eq0" and f[1][0] == "lin":      # j[key] - 1 == 0
        return pos if f[1][1] in (-1, 1) else None
    if f[0] == "eq0":                            # j[key] == false
        return not pos
    return pos


def run(R):
    F = s.main_facts()
    ns, ng = accessors(F, R)
    nj = json_options(F, R)
    R.need(ns >= 40, f"only {ns} setters found")
    R.need(nj >= 12, f"only {nj} option sites found")
    R.cov.update(setters=ns, getters=ng, option_sites=nj, functions_in_scope=len(F.funcs), rule="a setter stores its argument (in the member of its name), a getter returns its member, an option reaches its own setter")
