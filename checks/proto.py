"""The step protocol of the trackers, decided on the paths of the source (paths.py)."""
import re
import srclib as s
from paths import An, Path, Un, extracted, show, showlit, lit, neg, implied, add

FD = "include/ftk/filters/"
# concrete trackers, dimension of the elements they sweep
SWEEP = {"critical_point_tracker_2d_regular": 2, "critical_point_tracker_3d_regular": 3, "contour_tracker_2d_regular": 1, "contour_tracker_3d_regular": 1,
         "critical_line_tracker_3d_regular": 2, "tdgl_vortex_tracker_3d_regular": 2, "critical_point_tracker_2d_unstructured": 2, "critical_point_tracker_3d_unstructured": 3,
         "critical_line_tracker_3d_unstructured": 2}
M = lambda n: ("m", n)
SNAP, NOW = M("field_data_snapshots"), M("current_timestep")
SIZE = ("call", "size", SNAP, ())
TWO = lit(("ge0", add(SIZE, ("int", -2))))


def method(F, A, name):
    """the override of a method that objects of the class use"""
    for c in A.chain(A.cls):
        fs = [f for f in F.funcs if f["n"] == name and re.sub(r"<.*", "", f.get("cls", "")) == c and f["tmpl"] in ("", "inst")]
        if fs:
            return fs[0]
    return None


def lits(p):
    return " and ".join(showlit(l) for l in p.lits) or "always"


def inside(f):
    return f["file"].startswith(FD) and f["n"] not in ("update_vector_field_scaling_factor", "trace_critical_points_online", "check_simplex", "filter_critical_point_type", "fatal", "warn")


def s01(R):
    """sweep of one step"""
    F = s.main_facts()
    nsweep = npaths = nfun = 0
    xl = lit(("eq0", M("xl")))
    for cls, k in SWEEP.items():
        uns = "unstructured" in cls
        sweep = ("element_for_ordinal", "element_for_interval") if uns else ("element_for",)

        def event(nm, b, a, n, f):
            if nm in sweep and (b == ("this",) if not uns else True):
                return nm
            if nm in ("check_simplex", "filter_critical_point_type", "insert", "emplace"):
                return nm
            return None
        A = An(F, "ftk::" + cls, event, inside)
        f = method(F, A, "update_timestep")
        if f is None:
            R.error(f"no update_timestep of {cls}")
            continue
        nfun += 1
        try:
            ps = A.run(f, (xl,))
        except Un as e:
            R.error(f"{s.loc(f)}: update_timestep of {cls}: {e} is not followed")
            continue
        npaths += len(ps)
        for p in ps:
            got = {True: [], False: []}
            for e in p.ev:
                if e[0] == "set" and e[1] in (NOW, SNAP):
                    R.violation(f"{cls}#state", s.loc(f, {"l": e[-1]}), f"a sweep of {cls} changes {show(e[1])} (when {lits(p)})")
                if e[0] == "loop" and any(x[0] == "call" and x[1] in sweep for a in e[2] for x in a[1]):
                    R.violation(f"{cls}#repeat", s.loc(f, {"l": e[-1]}), f"the sweep of {cls} is repeated in a loop")
                if e[0] != "call" or e[1] not in sweep:
                    continue
                a = e[3]
                if uns:
                    ordn, kk, t, fn = e[1] == "element_for_ordinal", a[0], a[1], a[2]
                    if t != NOW:
                        R.violation(f"{cls}#time", s.loc(f, {"l": e[-1]}), f"{cls} sweeps the elements of timestep {show(t)} instead of the current one")
                else:
                    o = a[0]
                    if o[0] != "int":
                        R.error(f"{s.loc(f)}: scope {show(o)} of a sweep is not a constant")
                        continue
                    ordn, kk, fn = bool(o[1]), a[1], a[2]
                if kk != ("int", k):
                    R.violation(f"{cls}#dim", s.loc(f, {"l": e[-1]}), f"{cls} sweeps elements of dimension {show(kk)} instead of {k}")
                got[ordn].append((fn, e[-1]))
            nsweep += len(got[True]) + len(got[False])
            two = implied(p.lits, TWO)
            if len(got[True]) != 1:
                R.violation(f"{cls}#ordinal", s.loc(f), f"{cls} sweeps the elements of the current timestep {len(got[True])} times in one step, when {lits(p)}")
            if two is None:
                R.violation(f"{cls}#interval", s.loc(f), f"whether {cls} sweeps the elements between two timesteps does not depend on holding two snapshots: {len(got[False])} sweeps when {lits(p)}")
            elif len(got[False]) != int(two):
                R.violation(f"{cls}#interval", s.loc(f), f"{cls} sweeps the elements between two timesteps {len(got[False])} times when {lits(p)}")
            for fn, l in got[True] + got[False]:
                if fn[0] != "lambda":
                    R.error(f"{s.loc(f)}: the function applied to the elements is {show(fn)}")
                    continue
                collector(F, R, A, cls, f, fn, l)
    n2 = advance(F, R)
    R.need(nsweep >= 20, f"only {nsweep} sweeps found")
    R.cov.update(functions=nfun + n2, paths=npaths, sweeps=nsweep, functions_in_scope=len(F.funcs),
                 rule="one sweep over the elements of the current timestep on every path; one sweep over the elements to the next iff two snapshots are held; every element that passes check_simplex (and the type filter) is recorded, no other")


# trackers that register the cells around every point: how often side_of leads from the element to a cell
CELLS = {"contour_tracker_2d_regular": 2, "contour_tracker_3d_regular": 3, "tdgl_vortex_tracker_3d_regular": 2}


def cells(A, evs, e, depth):
    """the cells reached by side_of depth times through valid elements are all inserted, and the set ends up in related_cells"""
    into = set()

    def nest(evs, e, d):
        for x in evs:
            if x[0] != "loop" or x[1][0] != "each":
                continue
            rng = x[1][2]
            while rng is not None and rng[0] == "at":
                rng = rng[1]
            if not (rng is not None and rng[0] == "call" and rng[1] == "side_of" and rng[2] == e):
                continue
            good, any_ = True, False
            for al, ev, ret, brk in x[2]:
                if ret or brk:
                    good = False
                el = None
                vt = None
                for l in al:
                    if l[1][0] == "t" and l[1][1][0] == "call" and l[1][1][1] == "valid":
                        vt, el = l[2], l[1][1][2]
                    else:
                        good = False
                if vt is False:
                    continue
                it = el if el is not None else ("[]", x[1][1], ("it", x[3]))
                if A.root(it) != A.root(x[1][1]):
                    good = False
                if d == 1:
                    ins = [c for c in ev if c[0] == "call" and c[1] in ("insert", "emplace") and c[3] and c[3][0] == it]
                    good = good and bool(ins)
                    into.update(c[2] for c in ins)
                else:
                    good = good and nest(ev, it, d - 1)
                any_ = True
            if good and any_:
                return True
        return False
    if not nest(evs, e, depth):
        return False
    if M("related_cells") in into:
        return True
    return any(x[0] == "call" and x[1] == "insert" and x[2] == M("related_cells") and len(x[3]) == 2 and [y[1] for y in x[3] if y[0] == "call"] == ["begin", "end"] for x in evs)


seen = set()


def collector(F, R, A, cls, f, fn, line):
    """the function applied to every element"""
    if (cls, fn) in seen:
        return
    seen.add((cls, fn))
    n = A.lam[fn[1]][0]
    from paths import Path
    p = Path()
    E = ("l", "e#")
    try:
        ps = [q for q, _ in A.apply(p, fn, [E])]
    except Un as e:
        R.error(f"{s.loc(f, n)}: element function of {cls}: {e} is not followed")
        return
    where = s.loc(f, n)
    filt = cls.startswith("critical_point_tracker") and cls != "critical_point_tracker_3d_regular"
    stored = 0
    for q in ps:
        chk = [e for e in q.ev if e[0] == "call" and e[1] == "check_simplex"]
        if len(chk) != 1 or chk[0][3][0] != E:
            R.violation(f"{cls}#check", where, f"an element of {cls} is checked {len(chk)} times (when {lits(q)})")
            continue
        cp = chk[0][3][1]
        truth = {}
        ign, typ = None, None
        for l in q.lits:
            if l[1][0] == "t" and l[1][1][0] == "call":
                truth[l[1][1][1]] = l[2]
            elif l[1] == ("t", M("enable_ignoring_degenerate_points")):
                ign = l[2]
        degen = implied(q.lits, lit(("eq0", typeof(q, cp)))) is True or implied(q.lits, lit(("eq0", add(typeof(q, cp), ("int", -1))))) is True
        st = [e for e in q.ev if e[0] == "set" and e[1][0] == "[]" and e[1][1] in (M("discrete_critical_points"), M("intersections"))]
        bad = [e for e in q.ev if e[0] == "set" and e not in st]
        for e in st:
            key, val = e[1][2], e[2]
            okk = key == E or "tag" in show(key) and cls.endswith("2d_unstructured")
            if not okk:
                R.violation(f"{cls}#key", where, f"{cls} records the point of an element under {show(key)}")
            if A.root(val if val[0] != "at" else val[1]) != cp:
                R.violation(f"{cls}#value", where, f"{cls} records {show(val)} instead of the point that was found")
        if st:
            ok = truth.get("check_simplex") is True and (not filt or truth.get("filter_critical_point_type") is True)
            if ok and filt and cls.endswith("unstructured") and ign is not False:
                ok = all(implied(q.lits, lit(("eq0", add(typeof(q, cp), ("int", -k))))) is False for k in (0, 1))
        else:
            ok = truth.get("check_simplex") is False or filt and truth.get("filter_critical_point_type") is False or ign and degen and cls.endswith("unstructured")
        if not ok:
            R.violation(f"{cls}#record", where, f"{cls} {'records' if st else 'does not record'} the point of an element when {lits(q)}")
        if st and cls in CELLS and not cells(A, q.ev, E, CELLS[cls]):
            R.violation(f"{cls}#cells", where, f"{cls} does not register every valid cell around an element that holds a point (side_of applied {CELLS[cls]} times)")
        stored += bool(st)
    if not stored:
        R.violation(f"{cls}#record", where, f"{cls} never records a point")


def typeof(q, cp):
    for l in q.lits:
        v = l[1][1]
        for a in ([v] if v[0] != "lin" else [x for x, _ in v[2]]):
            b = a[1] if a[0] == "at" else a
            if b[0] == "." and b[2] == "type":
                return a
    return (".", cp, "type")


def advance(F, R):
    n = 0
    for cls in SWEEP:
        A = An(F, "ftk::" + cls, lambda nm, b, a, n, f: nm if nm in ("update_timestep", "pop_front", "pop_back", "push_back", "clear", "erase") else None, inside)
        f = method(F, A, "advance_timestep")
        if f is None:
            R.error(f"no advance_timestep of {cls}")
            continue
        n += 1
        try:
            ps = A.run(f)
        except Un as e:
            R.error(f"{s.loc(f)}: advance_timestep of {cls}: {e} is not followed")
            continue
        where = s.loc(f)
        for p in ps:
            up = [i for i, e in enumerate(p.ev) if e[0] == "call" and e[1] == "update_timestep"]
            pops = [i for i, e in enumerate(p.ev) if e[0] == "call" and e[2] == SNAP]
            sets = [i for i, e in enumerate(p.ev) if e[0] == "set" and e[1] == NOW]
            key = f"{cls}#advance"
            if len(up) != 1:
                R.violation(key, where, f"advancing {cls} runs {len(up)} sweeps (when {lits(p)})")
                continue
            if len(pops) > 1 or any(p.ev[i][1] != "pop_front" for i in pops):
                R.violation(key, where, f"advancing {cls} changes the snapshots by {', '.join(p.ev[i][1] for i in pops)} (when {lits(p)})")
            if not pops and not any(implied(p.lits, neg(lit(("ge0", add(a, ("int", -1)))))) for a in sizes(p.lits)):
                R.violation(key, where, f"advancing {cls} drops no snapshot when {lits(p)}")
            if any(i < up[0] for i in pops + sets):
                R.violation(key, where, f"advancing {cls} drops the snapshot or moves to the next timestep before the sweep")
            if len(sets) != 1:
                R.violation(key, where, f"advancing {cls} sets the current timestep {len(sets)} times (when {lits(p)})")
            else:
                v = p.ev[sets[0]][2]
                d = add(v, NOW, -1)
                ok = d == ("int", 1) or any(add(v, ("at", NOW, k), -1) == ("int", 1) for k in range(1, 4))
                if not ok:
                    R.violation(key, where, f"advancing {cls} sets the current timestep to {show(v)}")
            # result: snapshots remain
            r = p.ret[1] if p.ret else None
            l = A.literal(r) if r is not None else None
            good = False
            if l is not None and not isinstance(l, bool):
                good = remaining(l)
            if not good:
                R.violation(key, where, f"advancing {cls} returns {show(r)} instead of whether snapshots remain (when {lits(p)})")
    return n


def sizes(ls):
    out = []
    for l in ls:
        v = l[1][1]
        for a in ([x for x, _ in v[2]] if v[0] == "lin" else [v]):
            if a[0] == "call" and a[1] == "size" and a[2] is not None and "field_data_snapshots" in repr(a[2]):
                out.append(a)
    return out


def remaining(l):
    """the literal says that the number of snapshots, as it is at the end, is at least one"""
    for a in sizes([l]):
        if l == lit(("ge0", add(a, ("int", -1)))) or l == neg(lit(("eq0", a))):
            return True
    return False


# ---------------------------------------------------------------- S02: the programs and the JSON interface drive the trackers
LOOPS = ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt")


def drivers(F):
    """(function, body node, parameters of a step function or None for a loop) of every piece of code that advances and updates a tracker for one snapshot"""
    out, done = [], set()

    def drives(n, depth=0):
        for c in s.calls(n, lambdas=False):
            if s.callee_name(c) in ("advance_timestep", "update_timestep"):
                return True
            g = F.byid.get(c.get("fid"))
            if g is not None and depth < 4 and extracted(g) and g.get("body") and drives(g["body"], depth + 1):
                return True
        return False

    for f in F.funcs:
        if f["tmpl"] == "pattern" or not f["file"].startswith(("src/cli/ftk.cpp", "include/ftk/filters/json_interface.hh")) or f["n"] in ("advance_timestep", "update_timestep") or not f.get("body"):
            continue
        bodies = [(n, n["params"]) for n in s.walk(f["body"]) if n["k"] == "LambdaExpr" and n.get("params")] + [(n, None) for n in s.walk(f["body"]) if n["k"] in LOOPS]
        for n, prm in [x for x in bodies if drives(x[0]["body"])]:
            if (f["file"], n["l"]) not in done:
                done.add((f["file"], n["l"]))
                out.append((f, n, prm))
    return out


def counter(f, n):
    """(id, name, first value) of the variable that counts the passes of a loop"""
    iv = [v for v in (n.get("init") or {}).get("c", []) if isinstance(v, dict) and v["k"] == "Var"]
    vs = {v["id"]: v for v in s.walk(f["body"]) if v["k"] == "Var"}
    ups = []
    for x in s.walk(n, lambdas=False):
        y = strip1(x["c"][0]) if x.get("c") and isinstance(x["c"][0], dict) else None
        if x["k"] == "UnaryOperator" and "++" in x["op"] or x["k"] == "CompoundAssignOperator" and x["op"] == "+=" and s.text(x["c"][1]) == "1":
            if y is not None and y["k"] == "DeclRefExpr" and y.get("id") in vs:
                ups.append(vs[y["id"]])
    inner = {v["id"] for v in s.walk(n["body"]) if v["k"] == "Var"}
    for v in iv + [u for u in ups if u["id"] not in inner]:
        i = v.get("init")
        return v["id"], v["n"], s.text(i) if i else "0"
    return None


def steady(A, f, n, p):
    """put the values of the variables of the enclosing function that keep their first value into the environment"""
    inner = {v["id"] for v in s.walk(n) if v["k"] == "Var"}
    for v in s.walk(f["body"], lambdas=False):
        if v["k"] != "Var" or v["id"] in inner or v["id"] in p.env or not v.get("init") or A.assigned(f, v["id"]) or v.get("t", "").endswith(("&", "*")):
            continue
        if not re.match(r"(const )?(unsigned |long |int|size_t|bool|auto|std::size_t)", v.get("t", "")):
            continue
        try:
            r = list(A.expr(p.copy(), v["init"]))
        except Un:
            continue
        if len(r) == 1 and r[0][1] is not None and not r[0][0].ev and r[0][1][0] in ("int", "lin", "call", "m", "g", "l", "."):
            p.env[v["id"]] = r[0][1]


def steps(A, q, K, n, vars_, base, name, bad):
    """the (step, number of steps) pairs, small ones, for which the path is taken"""
    def val(v, k, N):
        if v[0] == "int":
            return v[1]
        if v[0] == "lin":
            t = v[1]
            for a, c in v[2]:
                x = val(a, k, N)
                if x is None:
                    return None
                t += c * x
            return t
        if v[0] == "at" and A.root(v[1]) == K or v == K:
            return k
        if "start_timestep" in show(v) and "end" not in show(v):
            return base
        return N if number(v, vars_, n) else None

    def holds(l, k, N):
        form, pos = l[1], l[2]
        if form[0] == "t" and form[1][0] in ("<", "==") and len(form[1]) == 3:
            x, y = val(form[1][1], k, N), val(form[1][2], k, N)
            r = None if x is None or y is None else x < y if form[1][0] == "<" else x == y
        elif form[0] in ("ge0", "eq0"):
            x = val(form[1], k, N)
            r = None if x is None else x >= 0 if form[0] == "ge0" else x == 0
        else:
            r = None
        return None if r is None else r == pos

    def mentions(v):
        return v == K or isinstance(v, tuple) and any(mentions(x) for x in v)

    ls = [l for l in q.lits if mentions(l[1])]
    for l in ls:
        if holds(l, base, 1) is None:
            bad("cond", f"{name} compares the step: {showlit(l)}")
            return None
    return [(k, N) for N in (1, 2, 3, 4) for k in range(base, base + N) if all(holds(l, k, N) for l in ls)]


def s02(R):
    F = s.main_facts()
    nd = npaths = 0
    for f, n, prm in drivers(F):
        where = s.loc(f, n)
        first = "0"
        if prm is not None:
            kid, kname = prm[0]["id"], prm[0]["n"]
        else:
            c = counter(f, n)
            if c is None:
                continue
            kid, kname, first = c
        lams = {}
        for x in s.walk(f["body"]):
            if x["k"] == "Var" and x.get("init") and strip1(x["init"])["k"] == "LambdaExpr":
                lams[x["id"]] = strip1(x["init"])

        def event(nm, b, a, nn, g):
            if nm in ("advance_timestep", "update_timestep") or nm.startswith("push_") and nm.endswith("_snapshot"):
                return nm
            return None
        A = An(F, "", event, lambda g: False)
        p = Path()
        K = ("l", kname + "#k")
        p.env[kid] = K
        for i, ln in lams.items():
            if ln is n:
                continue
            A.lam[("d", i)] = (ln, {}, {})
            p.env[i] = ("lambda", ("d", i))
        vars_ = {v["id"]: v for v in s.walk(f["body"]) if v["k"] == "Var"}
        steady(A, f, n, p)
        try:
            ps = A.stmts([p], n["body"])
        except Un as e:
            R.error(f"{where}: {e} is not followed")
            continue
        if not any(e[0] == "call" and not e[1].startswith("push_") for q in ps for e in q.ev):
            continue
        single = all(not any(e[0] == "call" and e[1] == "update_timestep" for e in q.ev) for q in ps) and all(any(e[1] == "advance_timestep" for e in q.ev if e[0] == "call") for q in ps)
        nd += 1
        npaths += len(ps)
        name = f["n"]
        base = int(first) if re.fullmatch(r"-?\d+", first) else 0
        for q in ps:
            push = [i for i, e in enumerate(q.ev) if e[0] == "call" and e[1].startswith("push_")]
            adv = [i for i, e in enumerate(q.ev) if e[0] == "call" and e[1] == "advance_timestep"]
            upd = [i for i, e in enumerate(q.ev) if e[0] == "call" and e[1] == "update_timestep"]
            if any(e[0] == "loop" and any(x[0] == "call" and x[1] == "advance_timestep" for a in e[2] for x in a[1]) for e in q.ev):
                continue            # a loop over slices inside, examined on its own
            at = steps(A, q, K, n, vars_, base, name, lambda k, t: R.violation(f"{name}#{k}", where, t))
            if at is None or not at:
                continue
            if len(push) != 1:
                R.violation(f"{name}#push", where, f"{name} hands {len(push)} snapshots to the tracker per step (when {lits(q)})")
                continue
            if single:              # a tracker that needs one snapshot at a time
                if len(adv) != 1 or adv[0] < push[0]:
                    R.violation(f"{name}#order", where, f"{name} does not push the snapshot before it advances the tracker")
                continue
            for k, N in at:
                isfirst, islast = k == base, k == base + N - 1
                if len(adv) != int(not isfirst):
                    R.violation(f"{name}#advance", where, f"{name} advances the tracker {len(adv)} times in step {k - base} of {N}")
                if len(upd) != int(islast):
                    R.violation(f"{name}#update", where, f"{name} runs {len(upd)} final sweeps in step {k - base} of {N}")
            seq = push + adv + upd
            if seq != sorted(seq):
                R.violation(f"{name}#order", where, f"{name} does not push the snapshot before it advances the tracker, or advances after the final sweep")
        # the enclosing function initialises before and finalises after
        frame(R, F, f, n, where, name)
    R.need(nd >= 7, f"only {nd} driving loops found")
    R.cov.update(drivers=nd, paths=npaths, functions_in_scope=len(F.funcs), rule="per snapshot: one push, then one advance unless it is the first, then one final sweep iff it is the last; initialize before, finalize after the stream")


def strip1(n):
    while n and n["k"] in ("CXXConstructExpr", "ImplicitCastExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "CXXFunctionalCastExpr") and len([x for x in n.get("c", []) if x]) == 1:
        n = [x for x in n["c"] if x][0]
    return n


def number(o, vars_, n):
    """o is the number of steps of the series"""
    txt = show(o)
    for nm, i in re.findall(r"'(\w+)#(\d+|k)'", repr(o)):
        for v in vars_.values():
            if v["n"] == nm and str(v["id"]) == i and v.get("init"):
                txt += " " + s.text(v["init"])
    if o[0] == "call" and o[1] == "dim":        # slices of one array: the loop runs over the same dimension
        return n.get("cond") is None or show(o).replace(" ", "") in re.sub(r"\s|this->", "", s.text(n["cond"]))
    return bool(re.search(r"n_?timesteps", txt))


def frame(R, F, f, n, where, name):
    """initialize ... start/finish ... finalize, by order of the statements that contain them"""
    pos = {}
    cnt = 0
    for x in s.walk(f["body"]):
        cnt += 1
        if x is n:
            pos["drive"] = cnt
        if "callee" in x:
            nm = s.callee_name(x)
            b = s.base_obj(x)
            if nm in ("initialize", "finalize", "start", "finish") and b is not None:
                pos.setdefault(nm, []).append(cnt)
    fin, ini = pos.get("finalize", []), pos.get("initialize", [])
    st = pos.get("start", []) + pos.get("finish", [])
    if "drive" in pos and not any(i > pos["drive"] for i in fin):
        R.violation(f"{name}#finalize", where, f"{name} never finalises the tracker after the last snapshot")
    if prm_stream(f, n):
        for a, b in (("start", "drive"), ("finish", "start")):
            last = pos[b] if b == "drive" else max(pos.get(b, [0]))
            if not any(i > last for i in pos.get(a, [])):
                R.violation(f"{name}#{a}", where, f"{name} registers the step function but does not {a} the stream after {'that' if b == 'drive' else 'starting it'}")
    if st and fin and not any(i > max(st) for i in fin):
        R.violation(f"{name}#finalize", where, f"{name} finalises the tracker before the stream has ended")
    if st and ini and not any(i < min(st) for i in ini):
        R.violation(f"{name}#initialize", where, f"{name} starts the stream before the tracker is initialised")


def prm_stream(f, n):
    """the step function is the callback of a stream that is started and finished"""
    for c in s.calls(f["body"]):
        if s.callee_name(c) == "set_callback" and s.base_obj(c) is not None and "ndarray_stream" in s.base_obj(c).get("t", "") and any(x is n for x in s.walk(c)):
            return True
    return False
