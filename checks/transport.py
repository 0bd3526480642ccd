"""The data that travels: gather, bcastv, bcastj and redistribute, evaluated for a given process of a given number of processes.

The path analysis runs on containers with a known number of elements: a vector of one entry per process is a list of normal forms, a
message buffer is the list of the objects serialised into it, its length the sum of their (symbolic) lengths.  Loops over the
processes have a known number of passes.  The arguments of every MPI call are read off this state and compared with the protocol."""
import re
import srclib as s
from paths import An, Path, Un, add, lin, show, showlit

UNIT = ("#",)


def seglen(x):
    return x[1] if x[0] == "space" else ("len", x)


class Net(An):
    locals = True
    unroll = 16

    def __init__(self, F, np, me, root):
        super().__init__(F, "", lambda nm, b, a, c, g: nm if nm in ("insert", "operator()", "load", "emplace") else None, lambda g: False)
        self.np, self.me, self.rootp = np, me, root

    # ---- containers
    def size(self, p, v):
        c = p.mem.get((".", v, "#str"))
        if c is not None:
            t = ("int", 0)
            for x in c:
                t = add(t, seglen(x))
            return t
        return p.mem.get((".", v, "#size"))

    def elems(self, p, v):
        n = self.size(p, v)
        if n is None or n[0] != "int":
            return None
        return [p.mem.get(("[]", v, ("int", i)), ("int", 0)) for i in range(n[1])]

    def put(self, p, v, xs):
        for k in [k for k in p.mem if self.inside(k, v)]:
            del p.mem[k]
        p.mem.pop(v, None)
        p.mem[(".", v, "#size")] = ("int", len(xs))
        for i, x in enumerate(xs):
            p.mem[("[]", v, ("int", i))] = x

    def text(self, p, v, segs):
        for k in [k for k in p.mem if self.inside(k, v)]:
            del p.mem[k]
        p.mem.pop(v, None)
        p.mem[(".", v, "#str")] = segs

    def decl(self, p, v):
        out = super().decl(p, v)
        t = v.get("t", "")
        if t.endswith(("&", "*")):
            return out
        place = ("l", f"{v['n']}#{v['id']}")
        isv, iss = re.match(r"(const )?(std::)?vector<", t), re.match(r"(const )?(std::)?(basic_)?string\b", t)
        if not isv and not iss:
            return out
        for q in out:
            x = q.mem.get(place)
            if iss:
                if x is None or x[0] == "new" and not x[2]:
                    self.text(q, place, ())
                continue
            if x is None:
                self.put(q, place, [])
            elif x[0] == "new" and x[1] == "vector":
                a = [y for y in x[2]]
                e = self.elements(x)
                if e is not None and not (len(a) == 1 and a[0][0] == "int"):
                    self.put(q, place, e)
                elif a and a[0][0] == "int" and a[0][1] <= 64:
                    self.put(q, place, [a[1] if len(a) > 1 else ("int", 0)] * a[0][1])
        return out

    def store(self, p, pl, x):
        if pl[0] == "[]" and pl[2][0] == "int":
            n = self.size(p, pl[1])
            if n is not None and n[0] == "int" and not 0 <= pl[2][1] < n[1]:
                p.ev = p.ev + (("beyond", pl, n[1]),)
        return super().store(p, pl, x)

    def place(self, v):
        """the container whose storage an argument points to"""
        while v is not None and (v[0] == "at" or v[0] == "call" and v[1] in ("data", "begin", "c_str")):
            v = v[1] if v[0] == "at" else v[2]
        if v is not None and v[0] == "[]" and v[2] == ("int", 0):
            return v[1]
        return v

    def load(self, p, pl):
        if pl[0] == "[]" and pl[2][0] == "int":
            n = self.size(p, pl[1])
            if n is not None and n[0] == "int" and not 0 <= pl[2][1] < n[1]:
                return ("str", f"element {pl[2][1]} of {n[1]}")
        return super().load(p, pl)

    def view(self, p, v):
        """(kind, contents) of the storage an argument points to"""
        w = self.place(v)
        if (".", w, "#str") in p.mem:
            return ("str", w, p.mem[(".", w, "#str")])
        if (".", w, "#size") in p.mem:
            return ("vec", w, self.elems(p, w))
        if w is not None and w[0] in ("l", "m"):
            return ("one", w, p.mem.get(w, w))
        return ("?", w, None)

    def docall(self, p, n, nm, b, av, a):
        if nm in ("size", "rank") and b is not None and "comm" in show(b) and not av:
            yield p, ("int", self.np if nm == "size" else self.me)
            return
        bp = b
        while bp is not None and bp[0] == "at":
            bp = bp[1]
        if bp is not None and not av and nm in ("size", "length", "empty") and self.size(p, bp) is not None:
            z = self.size(p, bp)
            yield p, z if nm != "empty" else ("int", int(z == ("int", 0)))
            return
        if bp is not None and nm in ("resize", "push_back", "emplace_back", "assign", "clear", "reserve", "append") and (self.size(p, bp) is not None):
            q = p.copy()
            self.vecop(q, bp, nm, av)
            yield q, ("void",)
            return
        if nm in ("at", "operator[]") and bp is not None and len(av) == 1:
            yield p, self.load(p, ("[]", bp, av[0]))
            return
        if nm in ("accumulate", "reduce") and len(av) >= 2 and av[0][0] == "call" and av[0][1] in ("begin", "cbegin"):
            e = self.elems(p, self.place(av[0]))
            if e is not None:
                t = av[2] if len(av) > 2 else ("int", 0)
                for x in e:
                    t = add(t, x)
                yield p, t
                return
        if nm in ("exclusive_scan", "partial_sum", "inclusive_scan", "fill") and av and av[0][0] == "call":
            e, q = self.elems(p, self.place(av[0])), p.copy()
            if e is not None:
                if nm == "fill":
                    self.put(q, self.place(av[0]), [av[2]] * len(e))
                else:
                    d, out, t = self.place(av[2]), [], av[3] if nm == "exclusive_scan" else ("int", 0)
                    old = self.elems(p, d) or []
                    off = 0
                    if nm != "exclusive_scan" and av[2][0] == "lin":
                        raise Un(f"{nm} at line {n['l']}")
                    for x in e:
                        if nm == "exclusive_scan":
                            out.append(t)
                            t = add(t, x)
                        else:
                            t = add(t, x)
                            out.append(t)
                    self.put(q, d, out + old[len(out) + off:])
                yield q, ("void",)
                return
        if nm == "serializeToString":
            q = p.copy()
            self.text(q, self.place(av[1]), (("ser", self.bare(av[0])),))
            yield q, ("void",)
            return
        if nm == "save" and len(av) == 2:
            for w in self.alias.get(self.place(av[0]), ()):
                q = p.copy()
                if (".", w, "#str") in q.mem:
                    self.text(q, w, q.mem[(".", w, "#str")] + (("ser", self.bare(av[1])),))
                    yield q, ("void",)
                    return
        if nm.startswith("MPI_") or nm == "broadcast":
            q = p.copy()
            rec = [self.view(p, x) if i in PTR.get(nm, ()) else x for i, x in enumerate(av)]
            q.ev = q.ev + (("net", nm, rec, n["l"], len(q.ev)),)
            if nm == "MPI_Gather" and self.me == self.rootp and rec[3][0] == "vec":
                self.put(q, rec[3][1], [("gth", i) for i in range(self.np)])
            if nm == "MPI_Allgather" and rec[3][0] == "vec" and rec[0][0] in ("vec", "one"):
                self.put(q, rec[3][1], [("ag", i) for i in range(len(rec[3][2]))])
            if nm in ("MPI_Bcast", "broadcast"):
                k = 0 if nm == "MPI_Bcast" else 1
                if self.me != self.rootp:
                    if rec[k][0] == "one":
                        q.mem[rec[k][1]] = ("rcv", len([e for e in p.ev if e[0] == "net"]))
                    elif rec[k][0] == "vec":
                        i = len([e for e in p.ev if e[0] == "net"])
                        e = self.elems(q, rec[k][1])
                        if e is not None and rec[k][1][0] == "l" and len(e) == self.np:
                            self.put(q, rec[k][1], [("bc", i, j) for j in range(self.np)])
                        else:
                            self.put(q, rec[k][1], [])
                            del q.mem[(".", rec[k][1], "#size")]
            yield q, ("void",)
            return
        yield from super().docall(p, n, nm, b, av, a)

    def bare(self, v):
        while v is not None and v[0] == "at":
            v = v[1]
        if v is not None and v[0] == "[]":
            return ("[]", self.bare(v[1]), v[2])
        return v

    def vecop(self, q, v, nm, av):
        if (".", v, "#str") in q.mem:
            if nm in ("resize", "assign"):
                self.text(q, v, (("space", av[0]),))
            elif nm == "clear":
                self.text(q, v, ())
            elif nm == "append":
                raise Un("append")
            return
        e = self.elems(q, v)
        if e is None:
            return
        if nm in ("push_back", "emplace_back"):
            self.put(q, v, e + [av[0] if av else ("int", 0)])
        elif nm == "clear":
            self.put(q, v, [])
        elif nm in ("resize", "assign"):
            if av[0][0] != "int":
                raise Un(f"{nm} to {show(av[0])}")
            x = av[1] if len(av) > 1 else ("int", 0)
            self.put(q, v, ([] if nm == "assign" else e)[:av[0][1]] + [x] * (av[0][1] - (0 if nm == "assign" else len(e))))


PTR = {"MPI_Scatterv": (0, 1, 2, 4), "MPI_Scatter": (0, 3), "MPI_Gather": (0, 3), "MPI_Gatherv": (0, 3, 4, 5), "MPI_Bcast": (0,), "MPI_Allgather": (0, 3), "MPI_Alltoallv": (0, 1, 2, 4, 5, 6), "broadcast": (1,), "MPI_Allgatherv": (0, 3, 4, 5)}


def total(xs):
    t = ("int", 0)
    for x in xs:
        t = add(t, x)
    return t


def same(a, b):
    d = add(a, b, -1)
    c, m = lin(d)
    return c == 0 and not any(m.values())


def prefix(xs):
    out, t = [], ("int", 0)
    for x in xs:
        out.append(t)
        t = add(t, x)
    return out


def nets(p):
    return [e for e in p.ev if e[0] == "net"]


def st(x):
    return show(x).replace(" ", "") if x is not None else "nothing"


def flat(ev, ctx=()):
    """calls and sets in order with the loops around them"""
    for e in ev:
        if e[0] == "loop":
            for alt in e[2]:
                yield from flat(alt[1], ctx + ((e[1], alt[0]),))
        else:
            yield e, ctx


def types(bad, l, a, b, want):
    if st(a) != st(b) or want not in st(a):
        bad("type", l, f"{st(a)} is sent, {st(b)} received")


def seq_eq(a, b):
    return a is not None and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def gather(N, p, bad):
    g, v = [e for e in nets(p) if e[1] == "MPI_Gather"], [e for e in nets(p) if e[1] == "MPI_Gatherv"]
    if len(g) != 1 or len(v) != 1 or len(nets(p)) != 2 or nets(p)[0] is not g[0]:
        return bad("order", nets(p)[0][3] if nets(p) else 0, "the lengths are not gathered once before the data")
    (_, _, a, gl, _), (_, _, b, vl, at) = g[0], v[0]
    isroot = N.me == N.rootp
    segs = b[0][2] if b[0][0] == "str" else None
    if segs is None:
        return bad("content", vl, "what is sent is not a buffer of serialised objects")
    n = total(seglen(x) for x in segs)
    if not same(b[1], n) or a[0][0] not in ("one", "vec") or not same(a[0][2] if a[0][0] == "one" else a[0][2][0], n):
        bad("lengths", gl, f"the length announced ({st(a[0][2])}) and the length sent ({st(b[1])}) are not the size of what is sent")
    if st(a[1]) != "1" or st(a[4]) != "1" or st(a[2]) != st(a[5]):
        bad("lengths", gl, "not one length per process is gathered")
    if a[6] != ("int", N.rootp) or b[7] != ("int", N.rootp):
        bad("root", vl, "lengths and data are not sent to the requested root")
    types(bad, vl, b[2], b[6], "char")
    loads = [e for e, c in flat(p.ev) if e[0] == "call" and e[1] == "load"]
    outs = [e for e, c in flat(p.ev) if e[0] == "set" and st(e[1]) == "out"]
    if not isroot:
        if segs != (("ser", ("l", "in#")),):
            bad("content", gl, "a process other than the root sends a buffer that does not hold its data")
        if loads or outs:
            bad("content", vl, "a process other than the root changes its result")
        return
    cnt = [("gth", i) for i in range(N.np)]
    if b[4][0] != "vec" or not seq_eq(b[4][2], cnt):
        bad("lengths", vl, "the lengths gathered are not the ones the data is received with")
    if b[5][0] != "vec" or not seq_eq(b[5][2], prefix(cnt)):
        bad("displacements", vl, f"the data of the processes is placed at {', '.join(map(st, b[5][2] or [])) or 'unknown places'}, not one after the other")
    if b[3][0] != "str" or not same(total(seglen(x) for x in b[3][2]), total(cnt)):
        bad("buffer", vl, "the receive buffer does not have the sum of the lengths")
    own = [e for e in outs if st(e[2]) == "in"]
    if segs not in ((), (("ser", ("l", "in#")),)):
        bad("content", vl, "the root sends something else than its data")
    if bool(segs) == bool(own):
        bad("content", vl, "the root receives its own data twice" if segs else "the data of the root is left out")
    k = [i for i, e in enumerate(p.ev) if e[0] == "set" and st(e[1]) == "out"]
    l = [i for i, e in enumerate(p.ev) if e[0] == "loop" or e[0] == "call" and e[1] == "load"]
    if k and l and min(l) < max(k):
        bad("content", vl, "the data of other processes is overwritten by that of the root")
    unpack(N, p, b[3][1], bad, vl, "out")


def unpack(N, p, buf, bad, line, out, each=False):
    at = max(i for i, e in enumerate(p.ev) if e[0] == "net")
    loads = [(e, c) for e, c in flat(p.ev[at:]) if e[0] == "call" and e[1] == "load"]
    if not loads:
        return bad("unpack", line, "the received data is not read")
    for e, c in loads:
        sb, m = N.place(e[3][0]), N.bare(e[3][1])
        if buf not in N.alias.get(sb, ()):
            bad("unpack", e[4], f"{st(sb)} does not read the received buffer")
        if not any(h and h[0] == "while" and st(sb) in showlit(h[1]).replace(" ", "") for h, _ in c if h and isinstance(h[1], tuple)):
            bad("unpack", e[4], "the received data is not read to its end")
        ok = False
        for x, d in flat(p.ev[at:]):
            if x[0] != "call" or x[1] not in ("insert", "operator()", "emplace", "merge") or d[:len(c)] != c:
                continue
            if x[1] == "operator()" and [st(N.bare(y)) for y in x[3]] == [st(m), out]:
                ok = True
            if x[1] != "operator()" and st(N.bare(x[2])).startswith(out) and (any(h and h[0] == "each" and N.bare(h[1]) == m for h, _ in d) or any(st(m) in st(y) for y in x[3])):
                ok = True
        if not ok:
            bad("unpack", e[4], f"what is read is not merged into {out}")


def allgather(N, p, bad):
    b = nets(p)
    if [e[1] for e in b] != ["MPI_Allgather", "MPI_Allgatherv"]:
        return bad("order", b[0][3] if b else 0, "the lengths are not gathered once before the data")
    (_, _, a, gl, _), (_, _, v, vl, _) = b
    ser = ("ser", ("l", "in#"))
    if v[0][0] != "str" or v[0][2] != (ser,):
        bad("content", vl, "a process sends a buffer that does not hold its data")
    if not same(v[1], ("len", ser)) or a[0][0] not in ("one", "vec") or not same(a[0][2] if a[0][0] == "one" else a[0][2][0], ("len", ser)):
        bad("lengths", gl, f"the length announced ({st(a[0][2])}) and the length sent ({st(v[1])}) are not the size of what is sent")
    if st(a[1]) != "1" or st(a[4]) != "1" or st(a[2]) != st(a[5]):
        bad("lengths", gl, "not one length per process is gathered")
    types(bad, vl, v[2], v[6], "char")
    cnt = [("ag", i) for i in range(N.np)]
    if v[4][0] != "vec" or not seq_eq(v[4][2], cnt):
        bad("lengths", vl, "the lengths gathered are not the ones the data is received with")
    if v[5][0] != "vec" or not seq_eq(v[5][2], prefix(cnt)):
        bad("displacements", vl, f"the data of the processes is placed at {', '.join(map(st, v[5][2] or [])) or 'unknown places'}, not one after the other")
    if v[3][0] != "str" or not same(total(seglen(x) for x in v[3][2]), total(cnt)):
        bad("buffer", vl, "the receive buffer does not have the sum of the lengths")
    if any(e[0] == "set" and st(e[1]) == "out" for e, c in flat(p.ev)):
        bad("content", vl, "the result is set to something besides the data received, which has the data of every process")
    unpack(N, p, v[3][1], bad, vl, "out")


def bcastv(N, p, bad):
    b = nets(p)
    if [e[1] for e in b] != ["MPI_Bcast"] * 2:
        return bad("order", b[0][3] if b else 0, "size and data are not broadcast")
    (_, _, x, xl, _), (_, _, y, yl, _) = b
    if x[3] != ("int", N.rootp) or y[3] != ("int", N.rootp):
        bad("root", yl, "size and data do not come from the requested root")
    if st(x[1]) != "1" or "int" not in st(x[2]) or "char" not in st(y[2]):
        bad("type", xl, f"{st(x[1])} {st(x[2])} and {st(y[2])} are broadcast")
    if x[0][0] != "one" or y[0][0] != "str":
        return bad("content", yl, "a size and a buffer are not what is broadcast")
    n = total(seglen(z) for z in y[0][2])
    loads = [e for e, c in flat(p.ev) if e[0] == "call" and e[1] == "load"]
    if N.me == N.rootp:
        ser = (("ser", ("l", "inout#")),)
        whole = y[0][2] == ser or len(y[0][2]) == 1 and y[0][2][0][0] == "space" and same(y[0][2][0][1], ("len", ser[0]))
        if not whole:
            bad("content", yl, "the root broadcasts a buffer that does not hold its data")
        if not same(x[0][2], ("len", ser[0])) or not same(y[1], ("len", ser[0])):
            bad("lengths", xl, f"the size broadcast is {st(x[0][2])}, not the size of the data")
        if loads:
            bad("content", yl, "the root reads back its own data")
    else:
        r = ("rcv", 0)
        if not same(n, r) or not same(y[1], r):
            bad("buffer", yl, "the receive buffer does not have the size that was received")
        if len(loads) != 1 or st(loads[0][3][1]) != "inout" or y[0][1] not in N.alias.get(N.place(loads[0][3][0]), ()) or p.ev.index(loads[0]) < p.ev.index(b[1]):
            bad("unpack", yl, "the received data does not become the object")


def bcastj(N, p, bad):
    b = nets(p)
    if [e[1] for e in b] != ["broadcast"]:
        return bad("order", b[0][3] if b else 0, "the document is not broadcast once")
    _, _, x, l, at = b[0]
    if x[2] != ("int", N.rootp):
        bad("root", l, "the document does not come from the requested root")
    sets = [(i, e) for i, e in enumerate(p.ev) if e[0] == "set" and st(e[1]) == "j"]
    buf = x[1][1]
    if N.me == N.rootp:
        v = [e[2] for e in p.ev[:at] if e[0] == "set" and e[1] == buf]
        if not v or st(v[-1]) != "to_bson(j)":
            bad("content", l, f"the root broadcasts {st(v[-1]) if v else 'nothing'}")
        if sets:
            bad("content", l, "the root changes its document")
    elif len(sets) != 1 or sets[0][0] < at or not re.match(r"from_bson\(%s\b" % re.escape(st(buf)), st(sets[0][1][2])):
        bad("unpack", l, "the received document is not used")


def redistribute(N, p, bad):
    b = nets(p)
    if [e[1] for e in b] != ["MPI_Allgather", "MPI_Alltoallv"]:
        return bad("order", b[0][3] if b else 0, "the lengths are not exchanged once before the data")
    (_, _, a, gl, gat), (_, _, v, vl, _) = b
    np = N.np
    # every entry goes to the bucket of one process, chosen by its key alone
    ins = [(e, c) for e, c in flat(p.ev[:gat]) if e[0] == "call" and e[1] in ("insert", "emplace") and any(h and h[0] == "each" and st(h[1]) == "in" for h, _ in c)]
    k = N.bare(ins[0][0][2]) if len(ins) == 1 else None
    if k is None or k[0] != "[]" or k[2][0] != "%" or k[2][2] != ("int", np) or ".first" not in st(k[2]) or ".second" in st(k[2]) or ins[0][1][-1][1]:
        return bad("bucket", ins[0][0][4] if ins else gl, "an entry is not put into the bucket of exactly one process chosen by its key")
    I = k[1]
    segs = [("ser", ("[]", I, ("int", i))) for i in range(np)]
    exchange(N, p, segs, [seglen(x) for x in segs], bad)


def exchange(N, p, segs, lens, bad):
    np, ((_, _, a, gl, gat), (_, _, v, vl, _)) = N.np, nets(p)
    if v[0][0] != "str" or v[0][2] != tuple(segs):
        bad("content", vl, "the bucket of every process is not saved to the send buffer")
    if not seq_eq(v[1][2], lens) or not seq_eq(v[2][2], prefix(lens)):
        bad("lengths", vl, "the counts and the displacements are not the length and the place of each bucket in the send buffer")
    if not seq_eq(a[0][2] if a[0][0] == "vec" else None, lens) or a[1] != ("int", np) or a[4] != ("int", np):
        bad("lengths", gl, "the lengths of the buckets are not what is exchanged")
    if st(a[2]) != st(a[5]):
        bad("type", gl, f"{st(a[2])} is sent, {st(a[5])} received")
    types(bad, vl, v[3], v[7], "char")
    rc = [("ag", i * np + N.me) for i in range(np)]
    if not seq_eq(v[5][2], rc):
        bad("lengths", vl, f"the number of bytes expected from each process ({', '.join(map(st, v[5][2] or []))}) is not the number it sends here")
    if not seq_eq(v[6][2], prefix(rc)):
        bad("displacements", vl, "what the processes send is not placed one after the other")
    if v[4][0] != "str" or not same(total(seglen(x) for x in v[4][2]), total(rc)):
        bad("buffer", vl, "the receive buffer does not have the sum of the lengths")
    unpack(N, p, v[4][1], bad, vl, "out")


def all2all(N, p, bad):
    b = nets(p)
    if [e[1] for e in b] != ["MPI_Allgather", "MPI_Alltoallv"]:
        return bad("order", b[0][3] if b else 0, "the lengths are not exchanged once before the data")
    v, vl = b[1][2], b[1][3]
    own = [e for e, c in flat(p.ev) if e[0] == "set" and st(e[1]) == "out"]
    segs = [("ser", ("[]", ("l", "ins#"), ("int", i))) for i in range(N.np)]
    mine = segs[N.me] in (v[0][2] or ())
    if len(own) != int(not mine) or own and st(own[0][2]) != f"ins[{N.me}]":
        bad("content", vl, "what a process keeps for itself is not its own entry, once")
    exchange(N, p, [x for i, x in enumerate(segs) if i != N.me or mine], [seglen(x) if i != N.me or mine else ("int", 0) for i, x in enumerate(segs)], bad)


def scatterv(N, p, bad):
    b = nets(p)
    if [e[1] for e in b] != ["broadcast", "broadcast", "MPI_Scatterv"] and [e[1] for e in b] != ["MPI_Scatter", "MPI_Scatterv"]:
        return bad("order", b[0][3] if b else 0, "the lengths are not sent before the data")
    v, vl, at = b[-1][2], b[-1][3], b[-1][4]
    segs = [("ser", ("[]", ("l", "ins#"), ("int", i))) for i in range(N.np)]
    lens = [seglen(x) for x in segs]
    if any(e[2][2] != ("int", N.rootp) for e in b[:-1] if e[1] == "broadcast") or v[7] != ("int", N.rootp):
        bad("root", vl, "lengths and data do not come from the requested root")
    if N.me == N.rootp:
        if v[0][0] != "str" or v[0][2] != tuple(segs):
            bad("content", vl, "the root does not send the entries of the processes one after the other")
        if not seq_eq(v[1][2], lens) or not seq_eq(v[2][2], prefix(lens)):
            bad("lengths", vl, "the counts and displacements are not the length and the place of each entry")
        n = lens[N.me]
    else:
        n = [("bc", i, N.me) for i, e in enumerate(b[:-1])][[e[2][1][1] for e in b[:-1]].index(v[1][1])] if v[1][1] in [e[2][1][1] for e in b[:-1]] else None
    types(bad, vl, v[3], v[6], "char")
    if n is None or not same(v[5], n) or v[4][0] != "str" or not same(total(seglen(x) for x in v[4][2]), n):
        bad("buffer", vl, f"a process expects {st(v[5])} bytes, not the length the root has for it")
    loads = [e for e, c in flat(p.ev[at:]) if e[0] == "call" and e[1] == "load"]
    if len(loads) != 1 or st(loads[0][3][1]) != "out" or v[4][1] not in N.alias.get(N.place(loads[0][3][0]), ()):
        bad("unpack", vl, "the received data does not become the object")


RULES = {"all2all": all2all, "scatterv": scatterv, "gather": gather, "allgather": allgather, "bcastv": bcastv, "bcastj": bcastj, "redistribute": redistribute}
CONF = [(2, 0, 0), (2, 1, 0), (3, 0, 0), (3, 2, 0), (3, 0, 1), (3, 1, 1), (3, 2, 1), (4, 3, 3), (4, 1, 3)]


def run(F, R):
    n = 0
    for name, rule in RULES.items():
        fs = [f for f in F.funcs if f["q"] == "diy::mpi::" + name and f["tmpl"] in ("", "inst") and f["file"].startswith("include/ftk/utils/")]
        R.need(fs, f"diy::mpi::{name} was not found")
        for f in {f["l"]: f for f in fs}.values():
            bad = {}
            for np, me, root in CONF:
                N = Net(F, np, me, root)
                try:
                    q = Path()
                    for prm in f["params"]:
                        q.env[prm["id"]] = ("int", root) if prm["n"] == "root" else ("l", prm["n"] + "#")
                        if re.match(r"(const )?std::vector<", prm["t"]):        # one entry per process
                            q.mem[(".", ("l", prm["n"] + "#"), "#size")] = ("int", np)
                            for i in range(np):
                                q.mem[("[]", ("l", prm["n"] + "#"), ("int", i))] = ("[]", ("l", prm["n"] + "#"), ("int", i))
                    N.inlining = (f["id"],)
                    ps = N.stmts([q], f["body"])
                except Un as e:
                    R.error(f"{s.loc(f)}: {e} is not followed")
                    break
                for p in ps:
                    n += 1
                    for e in p.ev:
                        if e[0] == "beyond":
                            bad.setdefault(("beyond", f["l"]), f"element {st(e[1][2])} of {st(e[1][1])}, which has {e[2]}, is written (process {me} of {np})")
                    rule(N, p, lambda k, l, t: bad.setdefault((k, l), t + f" (process {me} of {np}, root {root})"))
            for (k, l), t in sorted(bad.items()):
                R.violation(f"transport:{name}:{k}", f"{f['file']}:{l}", f"{f['q']}: {t}")
    R.cov["transport_paths"] = n
