"""Distribution of the domain over the processes: the parts tile the domain and every sweep covers the own part (paths.py)."""
import re
import srclib as s
from paths import An, Un, Path, show, showlit, add, mul

AT = re.compile(r"at\(((?:[^()]|\([^()]*\))*), \d+\)")


def sh(v):
    """a value without the version of its parts"""
    t = show(v)
    while True:
        u = AT.sub(r"\1", t)
        if u == t:
            return t.replace(" ", "")
        t = u


def names(v):
    return set(re.findall(r"[A-Za-z_]\w*", sh(v)))


def fn(F, R, q, np=None):
    c = [f for f in F.funcs if s.norm(re.sub(r"<.*?>", "", f["q"])) == q and (np is None or len(f["params"]) == np) and f.get("body")]
    c.sort(key=lambda f: f["tmpl"] != "pattern")
    if not c:
        R.error(f"{q} not found")
        return None
    return c[0]


def paths(F, R, f):
    A = An(F, f.get("cls", ""), lambda nm, b, a, n, g: nm, lambda g: False)
    A.locals = A.split = True
    try:
        return A.run(f)
    except Un as e:
        R.error(f"{s.loc(f)}: {f['q']}: {e} is not followed")
        return []


def flat(ev):
    for e in ev:
        yield e
        if e[0] == "loop":
            for a in e[2]:
                yield from flat(a[1])


class Env:
    """what the local variables of a path hold, call by call"""
    def __init__(self, ev):
        self.ev = list(ev)

    def grown(self, place, upto):
        """init value and appended values of a local vector before event number upto"""
        init, app = None, []
        for e in self.ev[:upto]:
            if e[0] == "set" and e[1] == place:
                init, app = e[2], []
            if e[0] == "call" and e[1] in ("push_back", "emplace_back") and strip(e[2]) == place:
                app.append(e[3][0])
        return init, app


def strip(v):
    while isinstance(v, tuple) and v and v[0] == "at":
        v = v[1]
    return v


def s03(R):
    F = s.main_facts()
    n = 0
    n += initialize(F, R)
    n += sweep(F, R)
    n += ghost(F, R)
    n += factor(F, R)
    n += distribute(F, R)
    n += cut(F, R)
    R.need(n >= 20, f"only {n} obligations found")
    R.cov.update(obligations=n, functions=7, functions_in_scope=len(F.funcs), rule="cores tile the domain; the sweep of a process covers its core, one timestep long; its arrays cover the core and two ghost layers")


def initialize(F, R):
    f = fn(F, R, "ftk::regular_tracker::initialize")
    if not f:
        return 0
    n = 0
    for p in paths(F, R, f):
        on = {showlit(l): True for l in p.lits}
        part, whole = "use_default_domain_partition" in on, "not is_input_array_partial" in on
        E = Env(p.ev)

        def bad(k, t, line=None):
            R.violation("initialize#" + k, s.loc(f, {"l": line or f["l"]}), "regular_tracker::initialize: " + t + (f" (when {' and '.join(on)})" if on else ""))
        n += 1
        sets = [(i, e) for i, e in enumerate(p.ev) if e[0] == "call" and e[1] == "set_lb_ub"]
        if len(sets) != 1:
            bad("mesh", "the bounds of the spacetime mesh are not set once")
        else:
            i, e = sets[0]
            for a, src, t, what in ((e[3][0], "domain.lower_bounds()", "start_timestep", "lower"), (e[3][-1], "domain.upper_bounds()", "end_timestep", "upper")):
                init, app = E.grown(strip(a), i)
                if init is None or sh(init) != src or [sh(x) for x in app] != [t]:
                    bad("mesh " + what, f"the {what} bounds of the spacetime mesh are {sh(init) if init else '?'} and {', '.join(map(sh, app))} instead of {src} and {t}", e[4])
        last = {}
        for i, e in enumerate(p.ev):
            if e[0] == "set" and e[1][0] == "m":
                last[e[1][1]] = (i, e)
        n += 2
        if part:
            i, e = last.get("local_domain", (0, None))
            if e is None or not re.fullmatch(r"\w+\.get_core\(comm\.rank\(\)\)", sh(e[2])):
                bad("core", f"the own part is {sh(e[2]) if e else 'not set'} instead of the core of comm.rank()", e and e[3])
            else:
                who = e[2][2]
                made = [x for x in p.ev[:i] if x[0] == "set" and x[1] == strip(who)]
                cut = [x for x in p.ev[:i] if x[0] == "call" and x[1] == "partition" and x[2] is not None and strip(x[2]) == strip(who)]
                if not made or "domain" not in names(made[-1][2]) or "array_domain" in names(made[-1][2]):
                    bad("partitioner", "the partitioner of the own part does not work on domain", e[3])
                if len(cut) != 1 or sh(cut[0][3][0]) != "comm.size()":
                    bad("pieces", "the domain is not cut into comm.size() parts", e[3])
        elif "local_domain" in last:
            bad("given", "a given partition is overwritten", last["local_domain"][1][3])
        i, e = last.get("local_array_domain", (0, None))
        if whole:
            if e is None or sh(e[2]) != "array_domain":
                bad("array", f"the array of a process is {sh(e[2]) if e else 'not set'} instead of array_domain", e and e[3])
        elif part:
            v = e and e[2]
            if e is None or not (v[0] == "call" and v[1] == "add_ghost"):
                bad("ghost", f"the array of a process is {sh(v) if v else 'not set'} instead of the own part with ghosts", e and e[3])
            else:
                made = [x for x in p.ev[:i] if x[0] == "set" and x[1] == strip(v[2])]
                if not made or "array_domain" not in names(made[-1][2]):
                    bad("ghost partitioner", "the ghosts are not limited by array_domain", e[3])
                if not (sh(v[3][0]) == "local_domain" or "get_core" in sh(v[3][0])):
                    bad("ghost base", f"ghosts are added to {sh(v[3][0])} instead of the own part", e[3])
                for g in v[3][1:]:
                    w = strip(g)
                    wide = [w] if w[0] == "new" else []
                    for k, x in enumerate(p.ev[:i]):
                        if x[0] == "set" and x[1] == w:
                            wide.append(x[2])
                        if x[0] == "call" and x[1] == "push_back" and strip(x[2]) == w:
                            wide.append(x[3][0])
                        if x[0] == "loop":
                            for y in flat((x,)):
                                if y[0] == "call" and y[1] == "push_back" and strip(y[2]) == w:
                                    wide.append(y[3][0])
                    ints = [int(z) for v2 in wide for z in re.findall(r"(?<![\w.])\d+(?![\w.])", sh(v2))]
                    if not ints or max(ints) < 2:
                        bad("ghost width", f"{max(ints) if ints else 0} ghost layers are kept; two derivatives need 2", e[3])
        elif e is not None:
            bad("given array", "a given array domain is overwritten", e[3])
    return n


def sweep(F, R):
    f = fn(F, R, "ftk::regular_tracker::element_for")
    if not f:
        return 0
    val = {c["n"]: c["v"] for e in F.enums for c in e["consts"]}
    n = 0
    for p in paths(F, R, f):
        on = [showlit(l) for l in p.lits]
        E = Env(p.ev)
        cs = [(i, e) for i, e in enumerate(p.ev) if e[0] == "call" and e[1] == "element_for"]

        def bad(k, t, line=None):
            R.violation("element_for#" + k, s.loc(f, {"l": line or f["l"]}), "regular_tracker::element_for: " + t + (f" (when {' and '.join(on)})" if on else ""))
        n += 1
        if len(cs) != 1:
            bad("once", "the mesh is not swept once")
            continue
        i, e = cs[0]
        a = e[3]
        par = [q["n"] for q in f["params"]]
        if sh(a[0]) != par[1] or "f" not in names(a[3]) and par[2] not in names(a[3]):
            bad("args", "the dimension or the function is not handed on", e[4])
        lat = a[1]
        if lat[0] == "l" or strip(lat)[0] == "l":
            made = [x for x in p.ev[:i] if x[0] == "set" and x[1] == strip(lat)]
            lat = made[-1][2] if made else lat
        if not (lat[0] == "new" and len(lat[2]) == 2):
            bad("domain", f"the swept lattice is {sh(lat)}", e[4])
        else:
            for v, src, t, what in ((lat[2][0], "local_domain.starts()", "current_timestep", "starts"), (lat[2][1], "local_domain.sizes()", "1", "sizes")):
                init, app = E.grown(strip(v), i)
                if init is None or sh(init) != src or [sh(x) for x in app] != [t]:
                    bad(what, f"the swept lattice has the {what} {sh(init) if init else '?'} and {', '.join(map(sh, app))} instead of {src} and {t}", e[4])
        w = {"ELEMENT_SCOPE_ORDINAL": any(x == par[0] for x in on), "ELEMENT_SCOPE_INTERVAL": any(x == "not " + par[0] for x in on)}
        for c, want in w.items():
            if (sh(a[2]) in (str(val.get(c)), c)) != want:
                bad("scope", f"the scope is {sh(a[2])}", e[4])
                break
    for nm, want in (("element_for_ordinal", "1"), ("element_for_interval", "0")):
        g = fn(F, R, "ftk::regular_tracker::" + nm)
        if g:
            n += 1
            for p in paths(F, R, g):
                cs = [e for e in p.ev if e[0] == "call" and e[1] == "element_for"]
                if len(cs) != 1 or [sh(x) for x in cs[0][3]] != [want] + [q["n"] for q in g["params"]]:
                    R.violation(nm, s.loc(g), f"regular_tracker::{nm} does not forward to element_for({'true' if want == '1' else 'false'}, k, f)")
    return n


def ghost(F, R):
    f = fn(F, R, "ftk::lattice_partitioner::add_ghost")
    if not f:
        return 0
    b, lo, hi = [q["n"] for q in f["params"]]
    n = 0

    def bad(k, t, line=None):
        R.violation("add_ghost#" + k, s.loc(f, {"l": line or f["l"]}), "lattice_partitioner::add_ghost: " + t)
    for p in paths(F, R, f):
        loops = [e for e in p.ev if e[0] == "loop"]
        if not p.ret or p.ret[1] is None:
            bad("result", "nothing is returned")
            continue
        r = sh(p.ret[1])
        nolo = any("empty" in x or "size()" in x for x in map(showlit, p.lits))
        if loops and not nolo:
            bad("none", "missing ghost widths are read")
        if not loops:
            n += 1
            emp = [showlit(l) for l in p.lits]
            if r != b or not any("-1*" in x and x.endswith(">= 0") for x in emp):
                bad("none", f"without ghosts {r} is returned instead of {b}")
            continue
        E = Env(p.ev)
        if len(loops) != 1 or "nd_cuttable()" not in sh(loops[0][1]) and "nd()" not in sh(loops[0][1]):
            bad("dims", "not every dimension gets ghosts")
            continue
        rv = p.ret[1]
        if not (rv[0] == "new" and len(rv[2]) == 2):
            bad("result", f"{r} is returned")
            continue
        st, sz = strip(rv[2][0]), strip(rv[2][1])
        for v, src in ((st, f"{b}.starts()"), (sz, f"{b}.sizes()")):
            init, _ = E.grown(v, len(p.ev))
            if init is None or sh(init) != src:
                bad("base " + src, f"the result does not start from {src}")
        for alt in loops[0][2]:
            n += 1
            fin = {}
            d = None
            for e in alt[1]:
                if e[0] == "set" and e[1][0] == "[]":
                    fin[strip(e[1][1])] = e[2]
                    d = sh(e[1][2])
            if d is None:
                bad("change", "a dimension gets no ghosts", loops[0][3])
                continue
            # the literals say which of the ghost width and the room is smaller
            S, Z = f"{show(st)}[{d}]", f"{show(sz)}[{d}]"
            lits = [flatlin(l[1][1]) for l in alt[0] if l[1][0] == "ge0"]
            roomlo = {S: 1, f"l.start({d})": -1}
            want = None
            gl = pick(lits, f"{lo}[{d}]", roomlo)
            roomhi = {f"l.start({d})": 1, f"l.size({d})": 1, S: -1, Z: -1}
            gh = pick(lits, f"{hi}[{d}]", roomhi)
            if gl is None or gh is None:
                bad("min", f"the ghosts are not limited to the enclosing lattice (when {' and '.join(map(showlit, alt[0])) or 'always'})", loops[0][3])
                continue
            ws = sub({S: 1}, gl)
            wz = plus(plus({Z: 1}, gl), gh)
            gs, gz = flatlin(fin.get(st, ("l", "?"))), flatlin(fin.get(sz, ("l", "?")))
            if clean(gs) != clean(ws):
                bad("start", f"the start of the extended part is {sh(fin.get(st, ('l', 'unchanged')))} (when {' and '.join(map(showlit, alt[0])) or 'always'})", loops[0][3])
            if clean(gz) != clean(wz):
                bad("size", f"the size of the extended part is {sh(fin.get(sz, ('l', 'unchanged')))} (when {' and '.join(map(showlit, alt[0])) or 'always'})", loops[0][3])
    return n


def flatlin(v):
    if v[0] == "int":
        return {1: v[1]}
    if v[0] == "lin":
        d = {1: v[1]}
        for a, k in v[2]:
            d[sh(a)] = d.get(sh(a), 0) + k
        return d
    return {sh(v): 1}


def clean(d):
    return {k: v for k, v in d.items() if v}


def plus(a, b, k=1):
    d = dict(a)
    for x, y in b.items():
        d[x] = d.get(x, 0) + k * y
    return d


def sub(a, b):
    return plus(a, b, -1)


def pick(lits, g, room):
    """min(g, room) as far as the literals decide it"""
    G = {g: 1}
    for l in lits:
        for c in (0, -1):
            if clean(l) == clean(plus(sub(room, G), {1: c})):
                return G
            if clean(l) == clean(plus(sub(G, room), {1: c})):
                return room
    return None


def factor(F, R):
    f = fn(F, R, "ftk::lattice_partitioner::prime_factorization")
    if not f:
        return 0
    v = f["params"][0]["n"]
    n = 0

    def bad(k, t, line=None):
        R.violation("prime_factorization#" + k, s.loc(f, {"l": line or f["l"]}), "lattice_partitioner::prime_factorization: " + t)

    def walk(ev, conds):
        nonlocal n
        # every value appended divides what is left, and is divided out
        pend = None
        for e in ev:
            if e[0] == "loop":
                if e[1][0] == "while":
                    c = conds + [e[1][1]]
                else:
                    c = conds
                for a in e[2]:
                    walk(a[1], c + list(a[0]))
                continue
            if e[0] == "call" and e[1] in ("push_back", "emplace_back"):
                n += 1
                x = sh(e[3][0])
                if x == v:
                    pend = ("rest", e)
                    continue
                if not any(l[1][0] == "eq0" and l[2] and sh(l[1][1]) == f"%({v},{x})" for l in conds if isinstance(l, tuple) and l[0] == "lit"):
                    bad("divides", f"{x} is listed without dividing {v}", e[4])
                pend = (x, e)
            if e[0] == "set" and sh(e[1]) == v:
                if pend is None or sh(e[2]) != f"/({v},{pend[0]})":
                    bad("divided", f"{v} becomes {sh(e[2])} after {pend[0] if pend else 'nothing'} was listed", e[3])
                pend = None
        if pend is not None and pend[0] != "rest":
            bad("divided", f"{pend[0]} is listed but not divided out", pend[1][4])
        return pend

    for p in paths(F, R, f):
        pend = walk(p.ev, list(p.lits))
        big = any(flatlin(l[1][1]) in ({v: 1, 1: -2},) for l in p.lits if l[1][0] == "ge0")
        small = any(clean(flatlin(l[1][1])) == {v: -1, 1: 1} for l in p.lits if l[1][0] == "ge0")
        n += 1
        if not small and (pend is None or pend[0] != "rest"):
            bad("rest", "what is left after the small factors is not listed")
        if small and pend is not None:
            bad("rest", "the factor 1 is listed")
        if not big and not small:
            bad("rest", f"whether {v} was used up is not tested")
    return n


def distribute(F, R):
    """partition(np, given, ghosts): every factor of np cuts one dimension; every core gets its ghosts"""
    n = 0
    for k, want in ((1, None), (2, ["given"]), (3, ["given", "ghost", "ghost"])):
        g = [x for x in F.funcs if x["q"] == "ftk::lattice_partitioner::partition" and len(x["params"]) == k and "vector" not in x["params"][0]["t"]]
        if not g:
            R.error(f"partition/{k} not found")
            continue
        n += 1
        par = [q["n"] for q in g[0]["params"]]
        for p in paths(F, R, g[0]):
            cs = [e for e in p.ev if e[0] == "call" and e[1] == "partition"]
            if len(cs) != 1 or len(cs[0][3]) != 4 or sh(cs[0][3][0]) != par[0] or any(par[min(i, len(par) - 1)] != sh(cs[0][3][i]) for i in range(1, 4) if k == 3 or i < k):
                R.violation(f"partition/{k}", s.loc(g[0]), f"lattice_partitioner::partition with {k} arguments does not hand them on")
    g = [x for x in F.funcs if x["q"] == "ftk::lattice_partitioner::partition" and len(x["params"]) == 4]
    if not g:
        R.error("partition/4 not found")
        return n
    f = g[0]
    np = f["params"][0]["n"]

    def bad(k, t, line=None):
        R.violation("partition#" + k, s.loc(f, {"l": line or f["l"]}), "lattice_partitioner::partition: " + t)
    for p in paths(F, R, f):
        todo = [e for e in flat(p.ev) if e[0] == "call" and e[1] == "partition"]
        facs = [e for e in flat(p.ev) if e[0] == "call" and e[1] == "prime_factorization" and sh(e[3][0]) == np]
        lits = [showlit(l) for l in p.lits]
        if not todo:
            continue
        n += 1
        many = any(clean(flatlin(l[1][1])) == {np: 1, 1: -2} for l in p.lits if l[1][0] == "ge0")
        if many != bool(facs):
            bad("factors", f"{np} is {'not ' if many else ''}factorised" + (" although it is larger than 1" if many else ""))
        for e in p.ev:
            if e[0] != "loop" or e[1][0] != "each" or "prime_factor" not in sh(e[1][2]) :
                continue
            n += 1
            for a in e[2]:
                ps = [x for x in a[1] if x[0] == "call" and x[1] == "push_back"]
                if len(ps) != 1 or "it(" not in sh(ps[0][3][0]):
                    bad("each factor", f"a factor of {np} is used {len(ps)} times", e[3])
                cur = [x for x in a[1] if x[0] == "set"]
                if not cur or any("%(" not in sh(x[2]) or "nd_cuttable" not in sh(x[2]) and "ndim" not in sh(x[2]) for x in cur):
                    bad("dimension", "the dimension that a factor cuts can leave the lattice", e[3])
        for e in p.ev:
            if e[0] == "loop" and any(x[0] == "set" and sh(x[1]) == np for x in flat(e[2][0][1] if len(e[2]) == 1 else [y for a in e[2] for y in a[1]])):
                n += 1
                for a in e[2]:
                    it = e[1][1] if e[1][0] == "each" else None
                    gv = f"{sh(it)}[it({e[3]})]" if it else ""
                    zero = any(l[1][0] == "eq0" and l[2] and sh(l[1][1]) == gv for l in a[0])
                    div = any(l[1][0] == "eq0" and l[2] and sh(l[1][1]) == f"%({np},{gv})" for l in a[0])
                    up = [x for x in a[1] if x[0] == "set" and sh(x[1]) == np]
                    if a[2]:
                        continue
                    if zero == bool(up) or up and (not div or sh(up[-1][2]) != f"/({np},{gv})"):
                        bad("given", f"{np} becomes {sh(up[-1][2]) if up else np} for a given number of cuts (when {' and '.join(map(showlit, a[0]))})", e[3])
                    if zero and not any(x[0] == "set" and sh(x[2]) in ("1", "true") for x in a[1]):
                        bad("free", "a dimension left to the partitioner is not noticed", e[3])
            if e[0] == "loop" and any(x[0] == "call" and x[1] == "prime_factorization" for a in e[2] for x in flat(a[1])) and not any(sh(x[3][0]) == np for a in e[2] for x in flat(a[1]) if x[0] == "call" and x[1] == "prime_factorization"):
                n += 1
                for a in e[2]:
                    big = any(l[1][0] == "ge0" and sorted(clean(flatlin(l[1][1])).values()) == [-2, 1] for l in a[0])
                    st = [x for x in a[1] if x[0] == "set" and x[1][0] == "[]" and "prime_factorization(" in sh(x[2])]
                    if big != bool(st) or st and sh(st[0][1][2]) not in sh(st[0][2]):
                        bad("given factors", "a given number of cuts is not applied to its own dimension", e[3])
        given = not any(showlit(l).startswith("is_vector_zero(") for l in p.lits)
        if given and not any(e[0] == "loop" and any(x[0] == "call" and x[1] == "prime_factorization" and sh(x[3][0]) != np for a in e[2] for x in flat(a[1])) for e in p.ev):
            bad("given factors", "given numbers of cuts are ignored")
        if given and not any(e[0] == "loop" and any(x[0] == "set" and sh(x[1]) == np for a in e[2] for x in flat(a[1])) for e in p.ev):
            bad("given", f"the given cuts are not taken out of {np}")
        lits_c = [x for x in lits if "cores.size()" in x]
        lp = [e for e in p.ev if e[0] == "loop" and e[1][0] == "each" and "cores" in sh(e[1][1])]
        n += 1
        if any("!= 0" in x or x.startswith("-1+") or "-1 + cores" in x for x in lits_c) and not lp:
            bad("extents", "the parts get no ghosts")
        for e in lp:
            for a in e[2]:
                g = [x for x in a[1] if x[0] == "call" and x[1] == "add_ghost"]
                ps = [x for x in a[1] if x[0] == "call" and x[1] in ("push_back", "emplace_back") and sh(x[2]) == "extents"]
                par = [q["n"] for q in f["params"]]
                if len(g) != 1 or "it(" not in sh(g[0][3][0]) or [sh(x) for x in g[0][3][1:]] != par[2:4] or len(ps) != 1:
                    bad("ghosts", "the extended part is not the part with the low and the high ghosts", e[3])
    return n


def cut(F, R):
    g = [x for x in F.funcs if x["q"] == "ftk::lattice_partitioner::partition" and len(x["params"]) == 1 and "vector" in x["params"][0]["t"]]
    if not g:
        R.error("partition(factors) not found")
        return 0
    f = g[0]
    n = 0

    def bad(k, t, line=None):
        R.violation("cut#" + k, s.loc(f, {"l": line or f["l"]}), "lattice_partitioner::partition: " + t)
    for p in paths(F, R, f):
        push = [e for e in p.ev if e[0] == "call" and e[1] in ("push", "push_back")]
        outer = [e for e in p.ev if e[0] == "loop"]
        n += 1
        if len(outer) != 2 or len(push) != 1 or sh(push[0][3][0]) != "l":
            bad("whole", "cutting does not start from the whole lattice")
            continue
        if "nd_cuttable()" not in sh(outer[0][1]):
            bad("dims", "not every dimension is cut", outer[0][3])
        for o in outer[0][2]:
            facs = [e for e in o[1] if e[0] == "loop" and e[1][0] == "each"]
            cv = [e for e in o[1] if e[0] == "set"]
            if len(facs) != 1 or not cv:
                bad("factors", "not every factor of a dimension cuts it", outer[0][3])
                continue
            c = sh(cv[-1][1])
            if not re.search(r"\w+\[" + c + r"\]", sh(facs[0][1][1])):
                bad("factors", f"the dimension {c} is cut with {sh(facs[0][1][1])}", facs[0][3])
            for q in facs[0][2]:
                each = [e for e in q[1] if e[0] == "loop"]
                if len(each) != 1 or ".size()" not in sh(each[0][1][1][1][1]):
                    bad("every part", "not every part is cut", facs[0][3])
                    continue
                for alt in each[0][2]:
                    if alt[2]:
                        continue            # the part is too small: no partition
                    n += 1
                    if not any(l[1][0] == "ge0" and sorted(clean(flatlin(l[1][1])).values()) == [-1, 1] and any(re.fullmatch(r"\w+\.size\(" + c + r"\)", str(x)) and y == 1 for x, y in flatlin(l[1][1]).items()) for l in alt[0]):
                        bad("too small", "a part smaller than the number of pieces is cut into empty pieces", each[0][3])
                    piece(alt, c, bad, each[0][3])
        for a in outer[1][2]:
            n += 1
            ps = [e for e in a[1] if e[0] == "call" and e[1] in ("push_back", "emplace_back")]
            pops = [e for e in a[1] if e[0] == "call" and e[1] == "pop"]
            if len(ps) != 1 or sh(ps[0][2]) != "cores" or "front()" not in sh(ps[0][3][0]) or len(pops) != 1:
                bad("cores", "not every part becomes a core", outer[1][3])
    return n


def piece(alt, c, bad, line):
    """one part is replaced by pieces that follow each other along dimension c and end where the part ends"""
    ev = [e for e in alt[1] if not (e[0] == "call" and e[1] not in ("push", "pop", "emplace"))]
    loc = {}
    for e in ev:
        if e[0] == "set" and e[1][0] == "l" and isinstance(e[2], tuple):
            loc.setdefault(strip(e[1]), e[2])
    part = [k for k, v in loc.items() if sh(v).endswith(".front()")]
    pn = [show(k) for k in part] + [sh(v) for k, v in loc.items() if sh(v).endswith(".front()")]
    pops = [e for e in ev if e[0] == "call" and e[1] == "pop"]
    if len(pops) != 1:
        bad("pop", f"the part that was cut is removed {len(pops)} times", line)
    loops = [e for e in ev if e[0] == "loop"]
    last = [e for e in ev if e[0] == "call" and e[1] in ("push", "emplace")]
    if len(loops) != 1 or len(last) != 1 or ev.index(last[0]) < ev.index(loops[0]):
        bad("pieces", "the pieces of a part are not: equal pieces, then the rest", line)
        return
    lp = loops[0]
    if len(lp[2]) != 1:
        bad("pieces", "the pieces of a part depend on a condition", lp[3])
        return

    def two(e):
        a = e[3]
        if len(a) == 1 and a[0][0] == "new":
            a = a[0][2]
        return a if len(a) == 2 else None
    body = lp[2][0][1]
    inner = [e for e in body if e[0] == "call" and e[1] in ("push", "emplace")]
    if len(inner) != 1 or not two(inner[0]) or not two(last[0]):
        bad("pieces", "one pass does not add one piece", lp[3])
        return
    st = strip(two(inner[0])[0])
    if st != strip(two(last[0])[0]) or st not in loc or not any(sh(loc[st]) == f"{x}.starts()" for x in pn):
        bad("first", "the first piece does not start where the part starts", lp[3])
        return

    def upd(v):
        return v[3] if isinstance(v, tuple) and v[0] == "upd" and sh(v[2]).endswith(f"[{c}]") else None
    Q, rest = upd(two(inner[0])[1]), upd(two(last[0])[1])
    if Q is None or rest is None:
        bad("sizes", "the size of a piece is not set along the dimension that is cut", lp[3])
        return
    # number of passes: k from 0 while k < N-1
    hd = lp[1]
    k = [x for x in hd[2]] if len(hd) > 2 else []
    cnt = flatlin(hd[1][1][1]) if hd[0] == "while" and hd[1][1][0] == "ge0" else {}
    kn = show(k[0][0]).split("#")[0] if len(k) == 1 else None
    if kn is None or cnt.get(kn) != -1 or [e for e in body if e[0] == "set" and sh(e[1]) == kn and flatlin(e[2]) != {1: 1, kn: 1}]:
        bad("count", "the number of equal pieces is not recognised", lp[3])
        return
    k0 = flatlin(k[0][1])
    N = clean(sub(plus(clean({a: b for a, b in cnt.items() if a != kn}), {1: 1}), k0))      # number of equal pieces
    step = [e for e in body if e[0] == "set" and e[1][0] == "[]" and strip(e[1][1]) == st]
    if len(step) != 1 or sh(step[0][1][2]) != c or body.index(step[0]) < body.index(inner[0]) or clean(sub(flatlin(step[0][2]), {sh(step[0][1]): 1})) != clean(flatlin(Q)):
        bad("step", "a piece does not start where the piece before it ends", lp[3])
        return
    # the rest: size - N*Q
    whole = [f"{x}.size({c})" for x in pn] + [f"{x}.sizes()[{c}]" for x in pn]
    r = clean(flatlin(rest))
    w = [x for x in whole if r.get(x) == 1]
    prod = {a: b for a, b in r.items() if a not in whole}
    if len(w) != 1 or not product(prod, Q, N):
        bad("rest", f"the last piece has the size {sh(rest)}: the pieces do not end where the part ends", last[0][4])


def product(d, Q, N):
    """d is -(Q * N)"""
    q = sh(Q)
    nn = poly(N)
    want = {}
    for a, b in N.items():
        t = q if a == 1 else "*".join(sorted((q, a)))
        want[t] = want.get(t, 0) - b
    got = {}
    for a, b in d.items():
        for t, k in expand(a).items():
            got[t] = got.get(t, 0) + k * b
    return clean(want) == clean(got)


def poly(N):
    return N


def expand(t):
    """*(a,b) with b a sum"""
    m = re.fullmatch(r"\*\((.*)\)", t) if isinstance(t, str) else None
    if not m:
        return {t: 1}
    parts, depth, cur = [], 0, ""
    for ch in m.group(1):
        if ch == "," and depth == 0:
            parts.append(cur)
            cur = ""
            continue
        depth += ch in "([" 
        depth -= ch in ")]"
        cur += ch
    parts.append(cur)
    out = {(): 1}
    for x in parts:
        terms = {}
        depth, cur = 0, ""
        for ch in x + "+":
            if ch == "+" and depth == 0:
                mm = re.fullmatch(r"(-?\d+)(?:\*(.*))?", cur)
                if mm:
                    terms[mm.group(2) or 1] = terms.get(mm.group(2) or 1, 0) + int(mm.group(1))
                else:
                    terms[cur] = terms.get(cur, 0) + 1
                cur = ""
                continue
            depth += ch in "(["
            depth -= ch in ")]"
            cur += ch
        out = {tuple(sorted(a + ((b,) if b != 1 else ()))): k * l for a, k in out.items() for b, l in terms.items()}
    return {"*".join(a) if a else 1: k for a, k in out.items()}
