"""Serialisation and copying over the exported AST: what each save/load, to_json/from_json and copy function does to every data member."""
import re
import srclib as s

WRAP = ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "CXXStdInitializerListExpr", "ParenListExpr")
# members that a loader may leave out, with the reason
_M2, _M3 = "simplicial_unstructured_2d_mesh", "simplicial_unstructured_3d_mesh"
EXEMPT = {(_M2, f): "which part of the mesh this process holds; set by partition()" for f in
          ("partial", "part_triangles", "part_edges", "part_vertices", "part_triangles_gid", "part_edges_gid", "part_vertices_gid")}
EXEMPT.update({("object", f): "communicator of the process" for f in ("comm", "root_proc")})
EXEMPT.update({
    (_M2, "sigma"): "parameter of the smoothing kernel, which has its own file",
    (_M2, "smoothing_kernel"): "cache with its own file (write_smoothing_kernel/read_smoothing_kernel)",
    (_M2, "locator"): "accelerator built on request",
    (_M3, "smoothing_kernel"): "cache, built on request",
    (_M3, "triangle_sides"): "never read; derived from the triangles",
})

def strip(n):
    while n and n["k"] in WRAP and n.get("c") and len(n["c"]) == 1:
        n = n["c"][0]
    return n


def clean(t):
    t = s.norm(t)
    t = re.sub(r"\bconst\b|&|\*", "", t)
    return re.sub(r"\s+", " ", t).strip()


def is_json(t):
    return "basic_json" in t or t.strip() in ("const json &", "json &")


class Un(Exception):
    """a construct the analysis does not follow"""


class Tr:
    """trace of one (de)serialiser: events on the paths of the object '$'"""

    def __init__(self, F, f):
        self.F, self.f = F, f
        self.env, self.loops = {}, []
        self.order = []            # flat list of events (for the stream)
        self.json = {}             # key -> path
        self.assign = {}           # path -> source path (for copies)
        self.cur = self.order
        self.tmp = {}              # local variables that hold values (no alias): id -> label
        self.fixed = []            # resize(path, size)

    # ---- paths
    def path(self, n, env):
        n = strip(n)
        if n is None:
            return None
        k = n["k"]
        if k == "DeclRefExpr":
            return env.get(n.get("id")) or ("=" + n["n"] + f"#{n.get('id')}" if n.get("dk") in ("var", "parm") else None)
        if k == "CXXThisExpr":
            return env.get("this")
        if k in ("MemberExpr", "CXXDependentScopeMemberExpr") and n.get("dk", "field") != "method":
            b = self.path(n["c"][0], env) if n.get("c") else env.get("this")
            return None if b is None else b + "." + n["n"]
        if k in ("CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "CXXConstCastExpr", "CXXReinterpretCastExpr"):
            return self.path(n["c"][0], env)
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len([x for x in n.get("c", []) if x]) == 1:
            return self.path(n["c"][0], env)
        if k == "UnaryOperator" and n["op"] in ("*", "&"):
            return self.deref(self.path(n["c"][0], env)) if n["op"] == "*" else self.path(n["c"][0], env)
        if k == "ArraySubscriptExpr":
            return self.elem(self.path(n["c"][0], env), n["c"][1], env)
        if "callee" in n:
            nm, a = s.callee_name(n), n.get("c", [])
            if n.get("oop") == "[]" and not is_json(a[0].get("t", "")):
                return self.elem(self.path(a[0], env), a[1], env)
            if n.get("oop") in ("*", "->"):
                return self.deref(self.path(a[0], env))
            b = s.base_obj(n)
            bp = self.path(b, env) if b is not None else env.get("this")
            if nm == "at" and not (b is not None and is_json(b.get("t", ""))):
                return self.elem(bp, a[0], env)
            if nm in ("size", "length"):
                return None if bp is None else "size(" + bp + ")"
            if nm in ("begin", "cbegin", "data", "front"):
                return None if bp is None else "it(" + bp + ")"
            if nm in ("end", "cend"):
                return None if bp is None else "end(" + bp + ")"
            m = re.match(r"to_(\w+)$", nm)
            if m and bp is not None and not a:
                return f"{bp}.as_{m.group(1)}"
            if nm in ("move", "forward", "make_pair") and len(a) == 1:
                return self.path(a[0], env)
            if "operator" in nm and b is not None:        # a conversion
                return bp
        return None

    def deref(self, p):
        if p is None:
            return None
        m = re.match(r"it\((.*)\)$", p)
        return m.group(1) + "[]" if m else p

    def elem(self, b, ix, env):
        if b is None:
            return None
        i = self.path(ix, env)
        if i is not None and i == "ix(" + b + ")":
            return b + "[]"
        ixn = strip(ix)
        if ixn.get("v") is not None:
            return f"{b}[{ixn['v']}]"
        if i is not None and i.startswith("ix?"):           # an index whose bound is a loaded size: settled once the size is known
            return f"{b}[{i}]"
        return f"{b}[{s.text(ix)}]"

    # ---- statements
    def stmt(self, n, env):
        n = strip(n)
        if n is None:
            return
        k = n["k"]
        if k == "CompoundStmt":
            for x in n.get("c", []):
                if x:
                    self.stmt(x, env)
            return
        if k == "DeclStmt":
            for v in n.get("c", []):
                self.decl(v, env)
            return
        if k in ("CXXForRangeStmt", "ForStmt", "WhileStmt"):
            return self.loop(n, env)
        if k == "IfStmt":
            sub = self.sub(lambda: [self.stmt(n["then"], env)] + ([self.stmt(n["else"], env)] if n.get("else") else []))
            if sub:
                self.cur.append(("if", self.ctext(n["cond"], env), sub))
            return
        if k == "ReturnStmt":
            for x in n.get("c", []):
                if x:
                    self.stmt(x, env)
            return
        self.expr(n, env)

    def ctext(self, n, env):
        t = s.text(n)
        for x in s.walk(n):
            if x["k"] == "DeclRefExpr" and x.get("id") in env:
                t = re.sub(r"\b" + re.escape(x["n"]) + r"\b", env[x["id"]], t)
        return t

    def sub(self, go):
        save, self.cur = self.cur, []
        go()
        r, self.cur = self.cur, save
        return r

    def decl(self, v, env):
        init = strip(v.get("init")) if v.get("init") else None
        t = v.get("t", "")
        if init is not None:
            key = self.jkey(init, env)
            if key is not None:
                env[v["id"]] = "=" + v["n"] + f"#{v['id']}"
                self.json_read(env[v["id"]], key, v)
                return
            p = self.path(init, env)
            if p is not None and (t.endswith("&") or t.endswith("*") or "iterator" in t or p.startswith(("size(", "it(", "end(", "ix("))):
                env[v["id"]] = p
                return
            ps = [self.path(y, env) for y in init.get("c", []) if y] if init["k"] in ("ParenListExpr", "CXXConstructExpr", "CXXUnresolvedConstructExpr", "InitListExpr") else []
            if len(ps) >= 2 and ps[0] and ps[1] and ps[0].startswith("it(") and ps[1] == "end(" + ps[0][3:]:
                env[v["id"]] = ps[0][3:-1]      # a converted copy of a container
                return
            self.expr(init, env)
            if p is not None and p.startswith("$"):
                env[v["id"]] = p                # a copy of a part
                return
        env[v["id"]] = "=" + v["n"] + f"#{v['id']}"

    def loop(self, n, env):
        if n["k"] == "CXXForRangeStmt":
            r = self.path(n["range"], env)
            if r is None:
                raise Un(f"loop over {s.text(n['range'])}")
            e = dict(env)
            e[n["var"]["id"]] = r + "[]"
            sub = self.sub(lambda: self.stmt(n["body"], e))
            if sub:
                self.cur.append(("loop", "size(" + r + ")", sub))
            return
        e = dict(env)
        if n["k"] == "ForStmt" and n.get("init"):
            self.stmt(n["init"], e)
        bound, vid = None, None
        c = strip(n["cond"]) if n.get("cond") else None
        if c is not None:
            if c["k"] == "BinaryOperator" and c["op"] in ("<", "!=", ">", "<="):
                a, b = c["c"] if c["op"] != ">" else c["c"][::-1]
            elif c.get("oop") in ("!=", "<"):
                a, b = c["c"]
            else:
                a = b = None
            if a is not None and strip(a)["k"] == "DeclRefExpr":
                vid = strip(a)["id"]
                bp = self.path(b, e)
                ap = e.get(vid)
                if bp is not None and bp.startswith("end(") and ap == "it(" + bp[4:-1] + ")":
                    bound = "size(" + bp[4:-1] + ")"
                elif bp is not None and bp.startswith("size(") and c.get("op") != "<=":
                    bound = bp
                    e[vid] = "ix(" + bp[5:-1] + ")"
                elif bp is not None:
                    bound = bp + (" + 1" if c.get("op") == "<=" else "")
                    e[vid] = "ix?" + bp
                elif strip(b).get("v") is not None:
                    bound = f"={int(strip(b)['v']) + (c.get('op') == '<=')}"
        probe = self.sub(lambda: self.stmt(n["body"], dict(e)))
        if not probe:
            return
        if bound is None:
            raise Un(f"loop with condition {s.text(n.get('cond'))}")
        if vid is not None and (e.get(vid, "").startswith("ix") or bound.startswith("=")) and n["k"] == "ForStmt":
            st = [v for v in (n.get("init") or {}).get("c", []) if isinstance(v, dict) and v.get("id") == vid]
            if st and strip(st[0].get("init") or {"k": ""}).get("v") not in (0,):
                bound += f" from {s.text(st[0].get('init'))}"
            inc = strip(n.get("inc")) if n.get("inc") else None
            if inc is None or not (inc["k"] == "UnaryOperator" and "++" in inc["op"]):
                bound += f" step {s.text(inc)}"
        self.cur.append(("loop", bound, probe))

    # ---- expressions
    def jkey(self, n, env):
        """the key when the expression is j["key"], j.at("key"), possibly converted"""
        n = strip(n)
        while n is not None:
            if n["k"] in ("CXXConstructExpr", "CXXFunctionalCastExpr", "CXXStaticCastExpr", "CStyleCastExpr") and len(n.get("c", [])) == 1:
                n = strip(n["c"][0])
                continue
            if "callee" in n:
                nm, a, b = s.callee_name(n), n.get("c", []), s.base_obj(n)
                if n.get("oop") == "[]" and is_json(a[0].get("t", "")):
                    k = strip(a[1])
                    return k.get("v") if k["k"] == "StringLiteral" else None
                if b is not None and is_json(b.get("t", "")) and nm == "at" and len(a) == 1:
                    return strip(a[0]).get("v")
                if b is not None and is_json(b.get("t", "")) and nm == "value" and len(a) == 2:
                    return strip(a[0]).get("v")
                if b is not None and (nm.startswith("operator") or nm in ("get", "get_ref")) and not n.get("oop"):
                    n = strip(b)
                    continue
                if nm in ("move", "forward") and len(a) == 1:
                    n = strip(a[0])
                    continue
            return None
        return None

    def json_read(self, path, key, n):
        self.json.setdefault(key, []).append((path, n.get("l")))

    def json_init(self, n, env):
        """j = {{"key", value}, ...}"""
        n = strip(n)
        while n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len([x for x in n.get("c", []) if x and x["k"] != "CXXDefaultArgExpr"]) == 1:
            n = strip(n["c"][0])
        if n["k"] != "InitListExpr":
            raise Un(f"JSON value {s.text(n)[:60]}")
        for x in n["c"]:
            x = strip(x)
            while x["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len([y for y in x.get("c", []) if y and y["k"] != "CXXDefaultArgExpr"]) == 1:
                x = strip(x["c"][0])
            if x["k"] != "InitListExpr" or len(x["c"]) != 2:
                raise Un(f"JSON item {s.text(x)[:60]}")
            key, val = self.lit(x["c"][0]), x["c"][1]
            self.json_read(self.vpath(val, env), key, x)

    def lit(self, n):
        for x in s.walk(n):
            if x["k"] == "StringLiteral":
                return x.get("v")
        raise Un("JSON key")

    def vpath(self, n, env):
        p = self.path(n, env)
        n = strip(n)
        while p is None and n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len([x for x in n.get("c", []) if x and x["k"] != "CXXDefaultArgExpr"]) == 1:
            n = strip(n["c"][0])
            p = self.path(n, env)
        return p if p is not None else "?" + s.text(n)

    def expr(self, n, env):
        n = strip(n)
        if n is None:
            return
        if "callee" in n:
            nm, a, b = s.callee_name(n), [x for x in n.get("c", []) if x], s.base_obj(n)
            # stream items
            if nm in ("save", "load") and len(a) == 2 and "Buffer" in a[0].get("t", ""):
                p = self.path(a[1], env)
                self.cur.append(("item", p if p is not None else "?" + s.text(a[1]), clean((n.get("pt") or ["", a[1].get("t", "")])[1] if n.get("pt") else a[1].get("t", "")), n["l"], nm))
                return
            if nm in ("save_binary", "load_binary", "append_binary"):
                self.cur.append(("item", self.vpath(a[0], env), "bytes " + self.ctext(a[1], env), n["l"], nm))
                return
            if n.get("oop") in ("=", "()") and len(a) >= 1 and is_json(a[0].get("t", "")) and n["oop"] == "=":
                k = self.jkey(a[0], env)
                if k is not None:
                    self.json_read(self.vpath(a[1], env), k, n)
                else:
                    self.json_init(a[1], env)
                return
            if n.get("oop") == "=" and len(a) == 2:
                return self.assignment(a[0], a[1], n, env)
            if nm == "get_to" and b is not None:
                k = self.jkey(b, env)
                if k is not None:
                    self.json_read(self.path(a[0], env), k, n)
                    return
            if b is not None or env.get("this"):
                bp = self.path(b, env) if b is not None else env.get("this")
                if bp is not None:
                    if nm in ("resize", "reserve") and a:
                        self.cur.append(("resize", bp, self.path(a[0], env) or s.text(a[0]), n["l"])) if nm == "resize" else None
                        return
                    if nm in ("insert", "push_back", "emplace", "emplace_back", "add", "push_front"):
                        pr = [self.path(x, env) for x in a]
                        x0 = strip(a[0])
                        if nm == "insert" and len(a) == 3 and pr[1] and pr[1].startswith("it("):
                            src = pr[1][3:-1]
                            self.assign[bp + "[]"] = src + "[]"
                            self.cur.append(("whole", bp, src, n["l"]))
                            return
                        parts = None
                        if "callee" in x0 and s.callee_name(x0) == "make_pair":
                            parts = [self.path(y, env) for y in x0["c"]]
                        elif x0["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr", "CXXFunctionalCastExpr"):
                            y = x0
                            while y["k"] in ("CXXConstructExpr", "CXXFunctionalCastExpr", "CXXTemporaryObjectExpr") and len(y.get("c", [])) == 1 and self.path(y, env) is None:
                                y = strip(y["c"][0])
                            if len(y.get("c", [])) == 2:
                                parts = [self.path(z, env) for z in y["c"]]
                            elif "callee" in y and s.callee_name(y) == "make_pair":
                                parts = [self.path(z, env) for z in y["c"]]
                        elif len(a) == 2 and nm in ("emplace",):
                            parts = pr
                        elif len(a) == 2 and nm == "add":
                            parts = pr[::-1]
                        self.cur.append(("insert", bp, parts or [pr[-1]], n["l"]))
                        return
                    if nm == "assign" and len(a) == 2:
                        pr = [self.path(x, env) for x in a]
                        if pr[0] and pr[0].startswith("it(") and pr[1] == "end(" + pr[0][3:]:
                            self.cur.append(("whole", bp, pr[0][3:-1], n["l"]))
                            return
                    if nm == "clear":
                        return
                    m = re.match(r"from_(\w+)$", nm)
                    if m and len(a) == 1:
                        self.cur.append(("whole", f"{bp}.as_{m.group(1)}", self.path(a[0], env), n["l"]))
                        return
            if nm in ("copy", "copy_n") and len(a) == 3 and b is None:      # all elements of one container
                src, dst, bound = self.path(a[0], env), self.path(a[2], env), None
                if src is not None and dst is not None:
                    src, dst = (x[3:-1] if x.startswith("it(") else x for x in (src, dst))
                    x = strip(a[1])
                    if nm == "copy_n":
                        bound = f"={x['v']}" if x.get("v") is not None else self.path(a[1], env)
                    elif self.path(a[1], env) == "end(" + src + ")":
                        bound = "size(" + src + ")"
                    elif x["k"] == "BinaryOperator" and x["op"] == "+" and self.path(x["c"][0], env) in (src, "it(" + src + ")"):
                        y = strip(x["c"][1])
                        bound = f"={y['v']}" if y.get("v") is not None else self.path(y, env)
                    if bound is not None:
                        self.cur.append(("loop", bound, [("set", dst + "[i]", src + "[i]", n["l"])]))
                        return
            # a helper of the repository: followed
            for t in self.F.targets(n):
                if t.get("body") and not t["file"].startswith("include/ftk/external") and any("Buffer" in p["t"] or is_json(p["t"]) or "$" in (self.path(x, env) or "") for p, x in zip(t["params"], a)) and t["id"] != self.f["id"] and len(self.loops) < 4:
                    e = {}
                    if b is not None:
                        e["this"] = self.path(b, env)
                    for p, x in zip(t["params"], a):
                        q = self.path(x, env)
                        if q is not None:
                            e[p["id"]] = q
                    self.loops.append(1)
                    self.stmt(t["body"], e)
                    self.loops.pop()
                    return
            for x in a:
                self.expr(x, env)
            return
        if n["k"] in ("BinaryOperator", "CompoundAssignOperator") and n["op"] == "=":
            return self.assignment(n["c"][0], n["c"][1], n, env)
        if n["k"] == "LambdaExpr":
            return
        for x in s.kids(n):
            if isinstance(x, dict):
                self.expr(x, env)

    def assignment(self, l, r, n, env):
        k = self.jkey(r, env)
        p = self.path(l, env)
        if k is not None:
            self.json_read(p, k, n)
            return
        q = self.path(r, env)
        if p is not None:
            self.assign[p] = q if q is not None else "?" + s.text(r)
            self.cur.append(("set", p, self.assign[p], n["l"]))


# ---------------------------------------------------------------- normal form of a load trace
def subst(tr, m):
    def f(x):
        if isinstance(x, str):
            for a, b in m.items():
                x = x.replace(a, b)
            return x
        if isinstance(x, (list, tuple)):
            return type(x)(f(y) for y in x)
        return x
    return f(tr)


def settle(tr):
    """name the locals of a loader by the part of the object they end up in"""
    m = {}

    def go(evs, bound):
        for e in evs:
            if e[0] == "resize" and str(e[2]).startswith("="):
                m[e[2]] = "size(" + e[1] + ")"
            elif e[0] == "insert":
                ps = e[2]
                names = [e[1] + "[]"] if len(ps) == 1 else [e[1] + "[].first", e[1] + "[].second"]
                for a, b in zip(ps, names):
                    if a and a.startswith("="):
                        m[a] = b
                    if a and bound and re.match(r"=[^.\[]*\[\]$", a) and bound == "size(" + a[:-2] + ")":
                        m[a[:-2]] = e[1]        # all elements of a local container
                if bound and bound.startswith("="):
                    m[bound.split(" ")[0]] = "size(" + e[1] + ")"
            elif e[0] == "whole" and e[2] and str(e[2]).startswith("="):
                m[e[2]] = e[1]
            elif e[0] == "set" and str(e[2]).startswith("=") and "#" in str(e[2]) and not e[1].startswith("="):
                m[e[2]] = e[1]
            elif e[0] == "loop":
                go(e[2], e[1])
            elif e[0] == "if":
                go(e[2], bound)
    go(tr, None)
    t = subst(tr, m)

    def ix(x):
        if isinstance(x, str):
            return re.sub(r"(\S*?)\[ix\?size\(\1\)\]", r"\1[]", x)
        if isinstance(x, (list, tuple)):
            return type(x)(ix(y) for y in x)
        return x
    return ix(t), m


def flat(tr, types=True):
    """the items of a trace: (path, type), loops nested"""
    out = []
    for e in tr:
        if e[0] == "item":
            p, t = e[1], e[2]
            m = re.match(r"std::pair<(.*)>$", t)
            if m:
                a, b = split2(m.group(1))
                out += [("item", p + ".first", clean(a), e[3]), ("item", p + ".second", clean(b), e[3])]
            else:
                out.append(("item", p, t, e[3]))
        elif e[0] == "loop":
            sub = flat(e[2])
            if sub:
                out.append(("loop", e[1], sub))
        elif e[0] == "if":
            sub = flat(e[2])
            if sub:
                out.append(("if", e[1], sub))
    return out


def split2(t):
    d = 0
    for i, c in enumerate(t):
        d += c in "<(" and 1 or (c in ">)" and -1 or 0)
        if c == "," and d == 0:
            return t[:i], t[i + 1:]
    return t, ""


def show(e):
    return f"{e[1]} ({e[2]})" if e[0] == "item" else f"{e[0]} {e[1]} of {len(e[2])} items"


def typ(t):
    t = {"unsigned long": "size", "unsigned long long": "size", "size_t": "size", "std::size_t": "size", "size_type": "size"}.get(t, t)
    return t


def compare(a, b, where):
    """first difference of two item lists, or None"""
    for i in range(max(len(a), len(b))):
        if i >= len(a):
            return f"the loader reads {show(b[i])}, which is not saved{where}"
        if i >= len(b):
            return f"{show(a[i])} is saved but not loaded{where}"
        x, y = a[i], b[i]
        if x[0] != y[0]:
            return f"item {i + 1}{where} is saved as {show(x)} and loaded as {show(y)}"
        if x[1] != y[1]:
            return f"item {i + 1}{where} is saved from {show(x)} and loaded into {show(y)}"
        if x[0] == "item":
            tx, ty = typ(x[2]), typ(y[2])
            dep = "type-parameter" in tx + ty or "dependent" in tx + ty
            if tx != ty and not dep:
                return f"item {i + 1}{where} ({x[1]}) is saved as {x[2]} and loaded as {y[2]}"
        else:
            d = compare(x[2], y[2], where + f" in the {x[0]} over {x[1]}")
            if d:
                return d
    return None


def covered(items, out=None):
    out = set() if out is None else out
    for e in items:
        if e[0] == "item":
            out.add(e[1])
        else:
            covered(e[2], out)
    return out


def fields(F, t):
    """data members of a class of the repository, with those of its bases; None if it is not one"""
    r = F.rec.get(s.norm(re.sub(r"<.*", "", clean(t)))) or F.rec.get(clean(t))
    if not r:
        for q, x in F.rec.items():
            if s.short(q) == s.short(clean(t)):
                r = x
                break
    if not r:
        return None
    r = next((x for x in r if x["tmpl"] == "inst"), r[0])
    out = [(f["n"], f["t"], r["q"]) for f in r["fields"]]
    std = False
    for b in r["bases"]:
        bf = fields(F, b) if "ftk" in b or s.norm(b) in F.rec else None
        if bf is None:
            if "std::" in b and any(c in b for c in ("vector<", "map<", "set<", "list<", "deque<")):
                std = True
        else:
            out += bf[0]
            std |= bf[1]
    return out, std, r


def run(R):
    F = s.main_facts()
    n_items = 0
    pairs, recs = {}, 0
    for f in F.funcs:
        if f["n"] in ("save", "load") and len(f["params"]) == 2 and "Buffer" in f["params"][0]["t"]:
            key = (f["file"], re.sub(r"<.*", "", clean(f["params"][1]["t"])))
            d = pairs.setdefault(key, {})
            if f["n"] not in d or (d[f["n"]]["tmpl"] == "pattern"):
                d[f["n"]] = f
    R.need(len(pairs) >= 8, f"only {len(pairs)} binary serialisers found")
    for (file, t), d in sorted(pairs.items()):
        name = s.short(t)
        if set(d) != {"save", "load"}:
            R.violation(f"{name}#pair", file, f"the binary serialiser of {name} has only {', '.join(d)}")
            continue
        tr = {}
        try:
            for w in ("save", "load"):
                x = Tr(F, d[w])
                x.stmt(d[w]["body"], {d[w]["params"][1]["id"]: "$"})
                tr[w], m = settle(x.order)
        except Un as e:
            R.error(f"{file}: {name}: {e} is not followed")
            continue
        a, b = flat(tr["save"]), flat(tr["load"])
        n_items += len(a)
        diff = compare(a, b, "")
        where = s.loc(d["load"])
        if diff:
            R.violation(f"{name}#order", where, f"binary serialisation of {name}: {diff}")
        # indices are valid only after the container has its size
        sized = set()
        for e in tr["load"]:
            if e[0] == "resize":
                sized.add(e[1])
                if e[2] != "size(" + e[1] + ")":
                    R.violation(f"{name}#resize", where, f"the loader of {name} resizes {e[1]} to {e[2]}, not to the size that was saved")
            if e[0] == "loop":
                for it in covered(flat([e])):
                    mm = re.match(r"(.*?)\[\]", it)
                    ins = any(x[0] == "insert" for x in e[2])
                    if mm and not ins and mm.group(1) not in sized:
                        R.violation(f"{name}#size", where, f"the loader of {name} fills the elements of {mm.group(1)} before giving it its size")
        ft = fields(F, d["save"]["params"][1]["t"])
        if ft is None:
            continue
        recs += 1
        fl, std, rec = ft
        cov = covered(a) & covered(b)
        # a member set by the loader from other loaded data counts too
        for e in walk_events(tr["load"]):
            if e[0] == "set":
                cov.add(e[1])
        rel = relabelled(F, d["load"])
        for fn, _, q in fl:
            base = s.short(q)
            if (base, fn) in EXEMPT:
                continue
            ok = any(c == "$." + fn or c.startswith("$." + fn + ".") or c.startswith("$." + fn + "[") for c in cov)
            if not ok and (name, fn) == ("feature_curve_t", "id"):
                ok = rel
            n_items += 1
            if not ok:
                R.violation(f"{name}#{fn}#binary", where, f"member {fn} of {name} is not restored by its binary serialiser")
        if std and not any(c.startswith("$[]") for c in cov):
            R.violation(f"{name}#elements#binary", where, f"the elements of {name} are not restored by its binary serialiser")
    # the id of a curve is the key under which its set stores it
    jp = {}
    for f in F.funcs:
        if f["n"] in ("to_json", "from_json") and len(f["params"]) == 2 and f["file"].startswith("include/ftk"):
            t = re.sub(r"<.*", "", clean(f["params"][1]["t"]))
            d = jp.setdefault((f["file"], t), {})
            if f["n"] not in d or d[f["n"]]["tmpl"] == "pattern":
                d[f["n"]] = f
    R.need(len(jp) >= 3, f"only {len(jp)} JSON serialisers found")
    njson = 0
    for (file, t), d in sorted(jp.items()):
        name = s.short(t)
        if "from_json" not in d or not any(x.get("k") for x in (d["from_json"]["body"].get("c") or [])):
            continue            # documented as not readable (TODO)
        tr, js = {}, {}
        try:
            for w in ("to_json", "from_json"):
                if w not in d:
                    continue
                x = Tr(F, d[w])
                x.stmt(d[w]["body"], {d[w]["params"][1]["id"]: "$"})
                ev, m = settle(x.order)
                js[w] = {k: [(subst(p, m) if p else p, l) for p, l in v] for k, v in x.json.items()}
                if w == "from_json":
                    tr = ev
        except Un as e:
            R.error(f"{file}: {name}: {e} is not followed")
            continue
        where = s.loc(d["from_json"])
        njson += 1
        a, b = js.get("to_json", {}), js.get("from_json", {})
        for k in sorted(set(a) | set(b)):
            n_items += 1
            if k not in b:
                R.violation(f"{name}#{k}#json", where, f"JSON key \"{k}\" of {name} is written but not read")
                continue
            if k not in a:
                R.violation(f"{name}#{k}#json", where, f"JSON key \"{k}\" of {name} is read but not written")
                continue
            if len(a[k]) != 1:
                R.violation(f"{name}#{k}#json", where, f"JSON key \"{k}\" of {name} is written {len(a[k])} times")
            pa, pb = {p for p, _ in a[k]}, {p for p, _ in b[k]}
            if {listview(p) for p in pa} != {listview(p) for p in pb}:
                R.violation(f"{name}#{k}#json", where, f"JSON key \"{k}\" of {name} is written from {sorted(map(str, pa))} and read into {sorted(map(str, pb))}")
        ft = fields(F, d["from_json"]["params"][1]["t"])
        if ft is None:
            continue
        fl, std, rec = ft
        got = {p for v in b.values() for p, _ in v if p}
        for fn, _, q in fl:
            n_items += 1
            if not any(c == "$." + fn or c.startswith("$." + fn + "[") for c in got):
                R.violation(f"{name}#{fn}#json", where, f"member {fn} of {name} is not restored from JSON")
        if std and not any(c == "$" or c.startswith("$.as_") or c.startswith("$[]") for c in got) and not any(e[0] in ("whole", "insert") for e in walk_events(tr)):
            R.violation(f"{name}#elements#json", where, f"the elements of {name} are not restored from JSON")
        keyed(F, R, name, t, d["from_json"], tr, where)
    ncopy = copies(F, R)
    R.cov.update(binary_serialisers=len(pairs), json_serialisers=njson, copy_functions=ncopy, members_and_items=n_items, functions_in_scope=len(F.funcs),
                 rule="save and load visit the same members in the same order with the same type; every data member is restored; every copy assigns every data member from the same member")


def walk_events(tr):
    for e in tr:
        yield e
        if e[0] in ("loop", "if"):
            yield from walk_events(e[2])


def listview(p):
    """a container and its list form are the same content"""
    return re.sub(r"\.as_\w+$", "", p) if p else p


def relabelled(F, load):
    """every place that loads a curve of a set gives it its id back: a loader calls relabel with the key it read"""
    for f in F.funcs:
        if f["n"] == "load" and len(f["params"]) == 2 and "feature_curve_set_t" in f["params"][1]["t"]:
            for c in s.calls(f["body"]):
                if s.callee_name(c) == "relabel":
                    return True
    return False


def keyed(F, R, name, t, f, tr, where):
    """elements of a keyed container are stored back under the key they had: the id that every curve of a set carries"""
    if name != "feature_curve_set_t":
        return
    ok = False
    seen = set()

    def look(fn, depth):
        nonlocal ok
        if fn["id"] in seen or depth > 3:
            return
        seen.add(fn["id"])
        for c in s.calls(fn["body"]):
            nm = s.callee_name(c)
            if nm in ("insert", "add", "emplace"):
                for x in c.get("c", []):
                    for y in s.walk(x):
                        if y["k"] == "MemberExpr" and y["n"] == "id":
                            ok = True
            for g in F.targets(c):
                if g["file"].startswith("include/ftk/features"):
                    look(g, depth + 1)
    look(f, 0)
    if not ok:
        R.violation(f"{name}#label#json", where, f"reading {name} from JSON does not store the curves under the labels they had (the id of each curve)")


def copies(F, R):
    n = 0
    seen = set()
    for f in F.funcs:
        cls = f.get("cls")
        if not cls or len(f["params"]) != 1 or f["tmpl"] == "pattern" and any(g["tmpl"] == "inst" and g["l"] == f["l"] and g["file"] == f["file"] for g in F.funcs):
            continue
        if not (f.get("isctor") or f["n"] == "operator="):
            continue
        pt = clean(f["params"][0]["t"])
        if s.short(pt) != s.short(cls) or "&&" in f["params"][0]["t"] or re.sub(r"<.*", "", pt) != re.sub(r"<.*", "", clean(cls)):
            continue
        if (f["file"], f["l"]) in seen or s.short(cls) in ("fixed_point",):
            continue
        seen.add((f["file"], f["l"]))
        ft = fields(F, cls)
        if ft is None:
            continue
        x = Tr(F, f)
        env = {f["params"][0]["id"]: "$", "this": "@"}
        got = {}
        whole = False
        for i in f.get("inits", []):
            if i.get("n") and i.get("written"):
                got["@." + i["n"]] = x.vpath(i["e"], env)
            elif i.get("base") and i.get("written"):
                p = x.path(i["e"], env)
                if p == "$":
                    whole = True
        try:
            x.stmt(f["body"], env)
        except Un as e:
            R.error(f"{s.loc(f)}: copying {cls}: {e} is not followed")
            continue
        got.update(x.assign)
        dele = delegated(F, f, env)
        if dele:
            n += 1
            continue
        el = False
        for e in walk_events(x.order):
            if e[0] == "insert" and e[1] == "@":
                el = e[2] == ["$[]"]
            if e[0] == "whole" and e[1] == "@" and e[2] == "$":
                el = True
        fl, std, rec = ft
        n += 1
        what = "constructor" if f.get("isctor") else "assignment"
        for fn, ftp, q in fl:
            src = got.get("@." + fn)
            if src is None and whole and q != cls:
                continue
            if src is None and any(k.startswith("@." + fn) for k in got):
                src = next(v for k, v in got.items() if k.startswith("@." + fn))
                src = re.sub(r"\[.*", "", src)
            if src is None and ("mutex" in ftp):
                continue
            if src is None:
                conv = f["params"][0]["t"] and re.sub(r".*<|>.*", "", pt) != re.sub(r".*<|>.*", "", clean(cls))
                R.violation(f"{s.short(cls)}#{fn}#copy {what}", s.loc(f), f"the copy {what} of {s.short(cls)} does not copy member {fn}")
            elif src != "$." + fn:
                R.violation(f"{s.short(cls)}#{fn}#copy {what}", s.loc(f), f"the copy {what} of {s.short(cls)} sets member {fn} from {src}")
        if std and not (el or whole):
            R.violation(f"{s.short(cls)}#elements#copy {what}", s.loc(f), f"the copy {what} of {s.short(cls)} does not copy the elements")
    R.need(n >= 6, f"only {n} copy functions found")
    m = conversions(F, R)
    R.need(m >= 2, f"only {m} conversions between records found")
    return n + m


def extent(t):
    m = re.search(r"\[(\d+)\]\s*$", t) or re.search(r"array<.*,\s*(\d+)\w*>\s*$", s.norm(t))
    return int(m.group(1)) if m else None


def conversions(F, R):
    """conversions between two records, one of which holds a subset of the other's members (feature_point_lite_t): every common member is carried over"""
    n, seen = 0, set()
    for f in F.funcs:
        cls = f.get("cls")
        if not cls or f["file"].startswith("include/ftk/external") or (f["file"], f["l"]) in seen:
            continue
        if f.get("isctor") and len(f["params"]) == 1:
            src, dst = clean(f["params"][0]["t"]), cls
        elif re.match(r"to_\w+$", f["n"]) and not f["params"]:
            src, dst = cls, clean(f.get("ret", ""))
        else:
            continue
        if s.short(src) == s.short(dst):
            continue
        a, b = fields(F, src), fields(F, dst)
        if a is None or b is None:
            continue
        fa, fb = {x[0]: x[1] for x in a[0]}, {x[0]: x[1] for x in b[0]}
        com = set(fa) & set(fb)
        if len(com) < 3 or com not in (set(fa), set(fb)):
            continue
        seen.add((f["file"], f["l"]))
        n += 1
        x = Tr(F, f)
        try:
            if f.get("isctor"):
                out = "@"
                x.stmt(f["body"], {f["params"][0]["id"]: "$", "this": "@"})
            else:
                x.stmt(f["body"], {"this": "$"})
                out = None
                for y in s.walk(f["body"]):
                    if y["k"] == "ReturnStmt":
                        for z in s.walk(y):
                            if z["k"] == "DeclRefExpr":
                                out = "=" + z["n"] + f"#{z['id']}"
        except Un as e:
            R.error(f"{s.loc(f)}: conversion of {src} to {dst}: {e} is not followed")
            continue
        if out is None:
            R.error(f"{s.loc(f)}: conversion of {src} to {dst}: result not found")
            continue
        got = {}

        def sets(tr, bound):
            for e in tr:
                if e[0] == "set" and e[1].startswith(out + "."):
                    m = re.match(r"([^\[]*)(\[(\w+)\])?$", e[1][len(out) + 1:])
                    got[m.group(1)] = (e[2], bound if m.group(2) else None)
                elif e[0] == "loop":
                    sets(e[2], e[1])
                elif e[0] == "if":
                    sets(e[2], "conditional")
        sets(x.order, None)
        for k, v in x.assign.items():
            if k.startswith(out + ".") and k[len(out) + 1:] not in got and "[" not in k:
                got[k[len(out) + 1:]] = (v, None)
        for c in sorted(com):
            v = got.get(c)
            key = f"{s.short(src)} to {s.short(dst)}#{c}"
            if v is None:
                R.violation(key, s.loc(f), f"the conversion of {s.short(src)} to {s.short(dst)} drops member {c}")
                continue
            if re.sub(r"\[.*", "", v[0]) != "$." + c:
                R.violation(key, s.loc(f), f"the conversion of {s.short(src)} to {s.short(dst)} sets member {c} from {v[0]}")
            N = {extent(fa[c]), extent(fb[c])} - {None}
            if v[1] is not None and N and v[1] not in {f"={k}" for k in N} | {"size($." + c + ")"}:
                R.violation(key, s.loc(f), f"the conversion of {s.short(src)} to {s.short(dst)} copies {v[1].lstrip('=')} elements of member {c}, which has {sorted(N)}")
    return n


def delegated(F, f, env):
    """the body hands the whole object on to another converting function (ndarray's from_array, another assignment), which other properties cover"""
    x = Tr(F, f)
    for n in s.calls(f["body"]):
        nm, a, b = s.callee_name(n), [y for y in n.get("c", []) if y], s.base_obj(n)
        if nm in ("from_array", "swap", "operator="):
            if n.get("oop") == "=" and len(a) == 2:
                b, a = a[0], a[1:]
            tgt = x.path(b, env) if b is not None else "@"
            if len(a) == 1 and x.deref(tgt) in ("@", "@[]") and x.path(a[0], env) == "$":
                return True
    return False
