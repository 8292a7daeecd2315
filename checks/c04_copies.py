"""C04: copies are complete, clones share nothing."""
from checks.c01_equality import NOVALUE, family
from sqlib import effects, facts, memo, must, selftest
from sqlib.report import Report

TECHNIQUE = ("member coverage of every user-written copy/move/clone function by must-dataflow over its CFG with "
             "interprocedural read sets; alias analysis of clone results")
NOTE = ("Compiler-generated copies are complete by definition. Which member each member is copied from is decided by "
        "data dependence, not by the shape of the expression. Copies of sums, products and registries share their "
        "contents by documented design; only clones and network copies must not.")
RULE = ("(1) Every user-written copy/move constructor or assignment gives every non-mutable member and every base a "
        "value depending on the same part of the source, on every path (a self-assignment shortcut excepted). "
        "(2) Every clone function copies the whole object or reads every value member; constructor arguments land in "
        "the members they were read from. (3) Nothing shared (shared pointer, expression handle, raw pointer) reachable "
        "from the original is reachable from a clone or from a copied network. (4) The value classes have no member "
        "through which copies could share state.")

CLONES = ("clone", "_clone", "_clone_shared", "deep_copy")
DEEP = {"sequant::TensorNetworkV1", "sequant::TensorNetworkV2", "sequant::TensorNetworkV3"}
# members of networks that are views of, or found from, the tensors
DERIVEDNET = {"edges_", "have_edges_", "ext_indices_", "pure_proto_indices_"}
VALUE = {"sequant::Index", "sequant::IndexSpace", "sequant::IndexSpace::Attr", "sequant::Op", "sequant::Tensor",
         "sequant::Constant", "sequant::Variable", "sequant::mbpt::QuantumNumberChange", "sequant::Operator",
         "sequant::TypeAttr", "sequant::QuantumNumbersAttr", "sequant::Complex"}
# the copy's place in its own structure, and statistics gathered per object
OWN = {("sequant::FullBinaryNode", "parent_")}
COPYK = ("copy", "copy=", "move", "move=")
MAKE = ("make_shared", "make_unique", "allocate_shared")


class Model:
    def __init__(self, P, E):
        self.P, self.E = P, E
        self.cache = {}
        self.S = memo.Sources(P, E, self.AN)
        self.cl = {}
        for c in P.clss:
            self.cl.setdefault(c.q, c)
        self.sh = {}

    def AN(self, f):
        a = self.cache.get(f.u)
        if a is None:
            a = self.cache[f.u] = self.E.analysis(f)
        return a

    # ---------------------------------------------------------------- types
    def shares(self, t):
        """can copies of a value of this type share mutable state?"""
        if t is None:
            return False
        k = t.s
        if k in self.sh:
            return self.sh[k]
        self.sh[k] = False
        v = self.sh[k] = self._shares(t)
        return v

    def _shares(self, t):
        if t.ptr or t.ref:
            return True
        r = t.r
        if r is None:
            return t.s.rstrip().endswith("*")
        if r in ("std::shared_ptr", "std::__shared_ptr"):
            return not (t.a and t.a[0] is not None and t.a[0].const)
        if r == "sequant::ExprPtr" or r == "std::reference_wrapper":
            return True
        if r in ("std::function", "std::any", "std::weak_ptr", "std::enable_shared_from_this"):
            return False
        c = self.cl.get(r) or self.cl.get(t.s)
        if c is not None and c.q.startswith("sequant"):
            if any(self.shares(f["t"]) for f in c.fields if not f.get("mu")):
                return True
            if any(self.shares(bt) for _, bt in c.bases):
                return True
            return False
        if r.startswith("sequant"):
            return False
        return any(a is not None and self.shares(a) for a in t.a)

    # --------------------------------------------------------------- fields
    def fields(self, q):
        c = self.cl.get(q)
        return c.fields if c is not None else []

    def need(self, q):
        s = memo.strip(q)
        out = set()
        for fd in self.fields(q):
            if fd.get("mu") or fd["n"] == "" or (s, fd["n"]) in OWN or \
                    (s in DEEP and fd["n"] in DERIVEDNET):
                continue
            if (s, fd["n"]) in NOVALUE and NOVALUE[(s, fd["n"])] == "cache":
                continue
            out.add(fd["n"])
        c = self.cl.get(q)
        for b, t in (c.bases if c is not None else ()):
            r = t.r if t is not None and t.r else b
            if r and self.stateful(r, t):
                out.add("<base %s>" % memo.strip(r).split("::")[-1])
        return out

    def stateful(self, q, t, depth=0):
        c = self.cl.get(q) or (self.cl.get(t.s) if t is not None else None)
        if c is None:
            return any(z in (t.s if t is not None else q) for z in ("vector", "array", "map", "set"))
        if depth > 6:
            return False
        return bool([f for f in c.fields if not f.get("mu") and f["n"]]) or \
            any(self.stateful(bt.r if bt is not None and bt.r else b, bt, depth + 1) for b, bt in c.bases)

    # ----------------------------------------------------------- dependence
    def deps(self, f, nodes, root, q, depth=0, seen=None):
        """members of the object at root that the value of the nodes depends on; '*' for all of it"""
        a = self.AN(f)
        seen = set() if seen is None else seen
        out = set()
        for n in nodes:
            if n is None or n < 0 or n in seen:
                continue
            for x in f.subtree(n):
                if x in seen:
                    continue
                seen.add(x)
                nd = f.N[x]
                k = nd["k"]
                if k == "mem" and nd["d"] is not None and nd["d"].k == "field":
                    if root in memo.objpaths(a, f, nd["c"][0], nd.get("ar")):
                        out.add(nd["d"].n)
                elif k in ("call", "ctor"):
                    obj, args = a.argvals(nd)
                    tg = self.P.targets(f, nd)
                    if obj is not None and obj >= 0 and root in memo.objpaths(a, f, obj, nd.get("ar")):
                        if tg:
                            for g in tg:
                                out |= self.readset(g, (("t",), ()), q)
                        else:
                            out.add("*")
                    for i, z in enumerate(args):
                        if z < 0:
                            continue
                        if any(p == root and kd in ("L", "P") for kd, p in a.ev(z)):
                            u = memo.unwrap(f, z)
                            whole = not tg or k == "ctor" and nd["d"].ck in ("copy", "move") or any(
                                g.fk in COPYK for g in tg)
                            if whole:
                                out.add("*")
                            else:
                                for g in tg:
                                    if i < len(g.p):
                                        out |= self.readset(g, (("p", i), ()), q)
                elif k == "ref" and nd["d"] is not None and nd["d"].k in ("var", "bind") and depth < 4:
                    d = nd["d"]
                    src = self.defs(f).get(d, ())
                    out |= self.deps(f, src, root, q, depth + 1, seen)
                elif k == "lambda":
                    for g in self.P.lambdas_of(nd):
                        if g.b is not None:
                            out |= self.deps(g, [g.b], root, q, depth + 1, None)
        # the whole object as a plain value
        for n in nodes:
            if n is None or n < 0:
                continue
            u = memo.unwrap(f, n)
            if u is not None and u >= 0 and f.N[u]["k"] in ("ref", "un") and \
                    any(p == root and kd == "L" for kd, p in a.ev(u)) and root[0][0] == "p":
                out.add("*")
        return out

    def readset(self, g, root, q):
        if g.fk in COPYK:
            return {"*"}
        s, b = self.S.reads(g, q, set(), root=root, mut=True)
        return {n for _, n in s} | ({"*"} if b else set())

    def defs(self, f):
        """local -> nodes whose value it may hold (or elements it may contain)"""
        d = getattr(f, "_defs4", None)
        if d is None:
            d = {}
            for nd in f.N:
                if nd["k"] == "var":
                    for v in [nd["d"]] + [b for b in nd.get("b", ()) if b is not None]:
                        d.setdefault(v, []).extend(nd.get("c", ()))
                elif nd["k"] == "asg":
                    u = memo.unwrap(f, nd["c"][0])
                    while u is not None and u >= 0 and f.N[u]["k"] in ("mem", "idx") and f.N[u].get("c"):
                        u = memo.unwrap(f, f.N[u]["c"][0])
                    if u is not None and u >= 0 and f.N[u]["k"] == "ref" and f.N[u]["d"] is not None:
                        d.setdefault(f.N[u]["d"], []).append(nd["c"][1])
                elif nd["k"] == "rfor" and nd["c"][0] >= 0:
                    d.setdefault(f.N[nd["c"][0]]["d"], []).append(nd["c"][1])
                    for b in f.N[nd["c"][0]].get("b", ()):
                        if b is not None:
                            d.setdefault(b, []).append(nd["c"][1])
                elif nd["k"] == "call" and nd.get("m") and nd["c"]:
                    u = memo.unwrap(f, nd["c"][0])
                    if u is not None and u >= 0 and f.N[u]["k"] == "ref" and f.N[u]["d"] is not None:
                        d.setdefault(f.N[u]["d"], []).extend(nd["c"][1:])
            f._defs4 = d
        return d


def covered(names, fld):
    return "*" in names or fld in names


def coverage(M, f, problems):
    """must-covered members of a copy/move function"""
    a = M.AN(f)
    q = f.c
    need = M.need(q)
    root = (("p", 0), ())
    base_ev = set()
    gen = {}
    if f.fk in ("copy", "move"):
        for i in f.inits:
            e = i.get("e", -1)
            if e is None or e < 0:
                continue
            dp = M.deps(f, [e], root, q)
            if i.get("d") is not None:
                if covered(dp, i["d"].n):
                    base_ev.add(i["d"].n)
                elif i["d"].n in need and dp:
                    problems.append((i["d"].n, "is copied from %s" % ", ".join(sorted(dp))))
            elif i.get("b"):
                if "*" in dp:
                    base_ev.add("<base %s>" % memo.strip(i["b"] if isinstance(i["b"], str) else i["b"].r).split("::")[-1])
            elif "*" in dp:
                base_ev |= need             # delegating
    own = (("t",), ())
    for x in f.walk():
        nd = f.N[x]
        k = nd["k"]
        lhs = rhs = part = None
        if k == "asg":
            lhs, rhs = nd["c"][0], nd["c"][1:]
        elif k == "call" and nd.get("d") is not None and nd["c"]:
            n = nd["d"].n
            part = nd["d"].c if n == "operator=" else None
            obj, args = a.argvals(nd)
            if n in ("operator=", "swap", "assign", "store", "exchange") and obj is not None and obj >= 0:
                lhs, rhs = obj, args
            elif n == "operator=" and len(nd["c"]) == 2:
                lhs, rhs = nd["c"][0], nd["c"][1:]
            elif n in ("swap", "iter_swap") and len(args) == 2:
                lhs, rhs = args[0], args[1:]
                gen.setdefault(x, set()).update(_target(M, f, a, args[1], args[:1], root, q, need, own))
        if lhs is not None:
            gen.setdefault(x, set()).update(_target(M, f, a, lhs, rhs, root, q, need, own, problems, part))
    # element-wise filling: a mutating call on a member
    for p, x, why in a.sites:
        if p[0] == ("t",) and p[1] and not isinstance(p[1][0], str):
            nd = f.N[x]
            if nd["k"] != "call":
                continue
            fld = p[1][0].n
            args = [c for c in nd["c"] if c >= 0]
            if covered(M.deps(f, args, root, q), fld):
                gen.setdefault(x, set()).add(fld)

    def edge(b, k):
        tc = b.get("tc")
        if tc is None or tc < 0:
            return ()
        c = memo.unwrap(f, tc)
        nd = f.N[c]
        if nd["k"] == "bin" and nd["o"] in ("==", "!=") or nd["k"] == "call" and nd.get("o") in ("==", "!="):
            ks = [memo.unwrap(f, z) for z in nd["c"][-2:]]
            if any(f.N[z]["k"] == "this" for z in ks) and any(f.N[z]["k"] in ("un", "call") for z in ks):
                same = nd["o"] == "=="
                if (k == 0) == same:
                    return need
        return ()
    got = must.at_exit(f, {x: frozenset(v) for x, v in gen.items()}, edge)
    got = (got or frozenset()) | base_ev
    return need, got


def _target(M, f, a, lhs, rhs, root, q, need, own, problems=None, part=None):
    out = set()
    u = memo.unwrap(f, lhs)
    lt = f.N[u].get("t")
    for kd, p in a.ev(lhs):
        if kd == "P":
            p = p
        if p[0] != ("t",):
            continue
        dp = M.deps(f, rhs, root, q)
        if p == own:
            if "*" in dp or not dp.symmetric_difference(need) or need <= dp:
                r = part or (lt.r if lt is not None and lt.r else None)
                b = "<base %s>" % memo.strip(r).split("::")[-1] if r else None
                if r and memo.strip(r) != memo.strip(q) and b in need:
                    out.add(b)
                elif r and memo.strip(r) != memo.strip(q):
                    # a further base
                    for z in need:
                        if z.startswith("<base"):
                            out.add(z)
                else:
                    out |= need
        elif not isinstance(p[1][0], str):
            if covered(dp, p[1][0].n):
                out.add(p[1][0].n)
            elif problems is not None and dp and p[1][0].n in need and len(p[1]) == 1:
                problems.append((p[1][0].n, "is copied from %s" % ", ".join(sorted(dp))))
    return out


# ------------------------------------------------------------------ clones
def made(M, f, n):
    """(class constructed, argument nodes) if n allocates or constructs"""
    nd = f.N[n]
    if nd["k"] == "new" or nd["k"] == "ctor":
        t = nd.get("t")
        if nd["k"] == "new":
            c = [z for z in nd["c"] if z >= 0 and f.N[z]["k"] == "ctor"]
            return (f.N[c[0]]["t"].r, list(f.N[c[0]]["c"])) if c else None
        return (t.r, list(nd["c"])) if t is not None and t.r else None
    if nd["k"] != "call" or nd.get("d") is None:
        return None
    if nd["d"].n in MAKE:
        t = nd["t"]
        return (t.a[0].r if t.a and t.a[0] is not None else None, list(nd["c"]))
    if nd["d"].n == "ex":
        for g in M.P.targets(f, nd):
            for z in g.N:
                if z["k"] == "call" and z.get("d") is not None and z["d"].n in MAKE and z["t"].a:
                    return z["t"].a[0].r, list(nd["c"])
    return None


def retained(M, T, i, n):
    """may a constructor of T taking n arguments keep (a handle to) argument i?"""
    cs = [g for g in M.P.fns.values() if g.fk == "ctor" and g.c and memo.strip(g.c) == memo.strip(T) and
          len(g.p) >= n and all("df" in p or p.get("df") for p in g.p[n:])]
    if not cs:
        return True, []
    keep = False
    for g in cs:
        a = M.AN(g)
        src = (("p", i),)
        for z in g.inits:
            e = z.get("e", -1)
            if e is not None and e >= 0 and any(p[0] == ("p", i) for kd, p in a.ev(e)):
                keep = True
        for x in g.walk():
            nd = g.N[x]
            if nd["k"] == "asg" or nd["k"] == "call" and nd.get("d") is not None and nd["d"].n == "operator=":
                if len(nd["c"]) == 2 and any(p[0] == ("p", i) for kd, p in a.ev(nd["c"][1])):
                    keep = True
            elif nd["k"] == "call" and nd.get("d") is not None and nd["d"].n not in (
                    "move", "forward", "clone", "is", "as") and not nd.get("as"):
                obj, args = a.argvals(nd)
                if any(z >= 0 and any(p[0] == ("p", i) for kd, p in a.ev(z)) and
                       M.shares(g.N[z].get("t")) for z in args) and \
                        any(p[0][0] == ("t",)[0] for p, y, w in a.sites if y == x):
                    keep = True
    return keep, cs


def result_sources(M, f, a, n, out, seen, root):
    """where the object designated by n comes from:
    ('copy', var or None) of the whole original, ('part', path), ('made', T, args)"""
    n = memo.unwrap(f, n)
    if n is None or n < 0 or n in seen:
        return
    seen.add(n)
    nd = f.N[n]
    k = nd["k"]
    if k == "cond":
        result_sources(M, f, a, nd["c"][1], out, seen, root)
        result_sources(M, f, a, nd["c"][2], out, seen, root)
        return
    if k == "ref" and nd["d"] is not None and nd["d"].k == "var":
        for s in M.defs(f).get(nd["d"], ()):
            before = set(out)
            result_sources(M, f, a, s, out, seen, root)
            for o in set(out) - before:
                if o[0] == "copy":
                    out.discard(o)
                    out.add(("copy", nd["d"]))
        return
    m = made(M, f, n)
    if m is not None:
        T, args = m
        vals = [z for z in args if z >= 0]
        if len(vals) == 1:
            u = memo.unwrap(f, vals[0])
            ut = f.N[u].get("t")
            if any(p == root for kd, p in a.ev(u)) and f.N[u]["k"] in ("un", "ref", "this", "call"):
                out.add(("copy", None))
                return
            if k == "ctor" and nd["d"].ck in ("copy", "move"):
                result_sources(M, f, a, u, out, seen, root)
                return
            # a smart pointer around something made inside
            if f.N[u]["k"] in ("call", "new", "ctor", "ref", "cond") and T and \
                    M.cl.get(T) is None or T in ("sequant::ExprPtr",):
                result_sources(M, f, a, u, out, seen, root)
                return
        out.add(("made", T, tuple(args), n))
        return
    if k == "call" and nd.get("d") is not None and nd["d"].n in ("move", "forward") and nd["c"]:
        result_sources(M, f, a, nd["c"][-1], out, seen, root)
        return
    if k == "call" and nd.get("d") is not None and nd["d"].n in CLONES:
        return
    if k == "ilist":
        for z in nd["c"]:
            result_sources(M, f, a, z, out, seen, root)
        return
    for kd, p in a.ev(n):
        if p[0] == root[0]:
            out.add(("part", p))


def fills(M, f, a, var, root):
    """(parts of the original handed to var after it was created, node)"""
    def into(g, ga, y, who):
        nd = g.N[y]
        if nd["k"] != "call" or nd.get("d") is None or nd.get("as"):
            return None
        obj, args = ga.argvals(nd)
        if obj is None or obj < 0 or not any(p[0] == who for kd, p in ga.ev(obj)):
            return None
        return [z for z in args if z >= 0 and M.shares(g.N[z].get("t"))]

    for x in f.walk():
        nd = f.N[x]
        if nd["k"] != "call":
            continue
        for z in into(f, a, x, ("v", var)) or ():
            for kd, p in a.ev(z):
                if p[0] == root[0]:
                    yield p, x
        lams = [c for c in nd.get("c", ()) if c >= 0 and f.N[memo.unwrap(f, c)]["k"] == "lambda"]
        if not lams:
            continue
        rest = [c for c in nd["c"] if c >= 0 and c not in lams]
        for c in lams:
            for g in M.P.lambdas_of(f.N[memo.unwrap(f, c)]):
                ga = M.AN(g)
                for y in g.walk():
                    for z in into(g, ga, y, ("c", var)) or ():
                        for kd, p in ga.ev(z):
                            if p[0][0] == "p":
                                for w in rest:
                                    for kd2, p2 in a.ev(w):
                                        if p2[0] == root[0]:
                                            yield p2, x
                            elif p[0] == root[0]:
                                yield p, x


def judge_clone(M, f, out, r):
    """f: clone-like member function of class q"""
    q = f.c
    s = memo.strip(q)
    a = M.AN(f)
    root = (("t",), ())
    srcs = set()
    for x in f.walk():
        if f.N[x]["k"] == "ret" and f.N[x].get("c"):
            result_sources(M, f, a, f.N[x]["c"][0], srcs, set(), root)
    whole = [o for o in srcs if o[0] == "copy"]
    if r is not None:
        r.count("clone functions")
        r.sample("%s: %s" % (f.q, "copy of *this" if whole else "rebuilt"))
    # completeness
    if not whole:
        reads, b = M.S.reads(f, q, set(), root=root, mut=True)
        names = {n for _, n in reads}
        for fd in M.fields(q):
            n = fd["n"]
            if fd.get("mu") or not n or (s, n) in NOVALUE or (s, n) in OWN or n == "constant_summand_idx_":
                continue
            if r is not None:
                r.count("members to be cloned")
            if n not in names:
                out.append((f, "omits", n))
        # constructor arguments land in the members they come from
        for o in srcs:
            if o[0] == "made" and o[1] and memo.strip(o[1]) == s:
                for i, z in enumerate(o[2]):
                    dp = {d for d in M.deps(f, [z], root, q) if d != "*"}
                    if len(dp) != 1:
                        continue
                    for g in M.P.fns.values():
                        if g.fk == "ctor" and g.c == q and len(g.p) >= len(o[2]) and i < len(g.p):
                            for ini in g.inits:
                                if ini.get("d") is None or ini.get("e", -1) < 0:
                                    continue
                                if ini["d"].n in dp and all(
                                        f.N[z2].get("t") is not None and p2["t"] is not None and
                                        f.N[z2]["t"].r == p2["t"].r for z2, p2 in zip(o[2], g.p)):
                                    ga = M.AN(g)
                                    refs = {g.N[y]["d"] for y in g.subtree(ini["e"]) if g.N[y]["k"] == "ref"}
                                    ps = [j for j, p in enumerate(g.p) if p["d"] in refs and j < len(o[2])]
                                    if len(g.p) == len(o[2]) and ps and i not in ps:
                                        out.append((f, "misplaces", ini["d"].n))
    # independence
    for x in f.walk():
        if f.N[x]["k"] == "ret" and f.N[x].get("c"):
            n = f.N[x]["c"][0]
            for _ in range(4):
                n = memo.unwrap(f, n)
                nd = f.N[n]
                m = made(M, f, n)
                if m is not None and len(m[1]) == 1 or nd["k"] == "call" and nd.get("d") is not None and \
                        nd["d"].n in ("move", "forward"):
                    n = m[1][0] if m is not None else nd["c"][-1]
            n = memo.unwrap(f, n)
            nd = f.N[n]
            if nd["k"] == "ref" and nd["d"] is not None and nd["d"].k == "var":
                for p, _ in fills(M, f, a, nd["d"], root):
                    out.append((f, "shares", effects.show(p)))
    for o in srcs:
        if o[0] == "copy":
            for fd in sharefields(M, q):
                if o[1] is not None and refreshed(M, f, a, o[1], fd["n"], root):
                    continue
                if M.copyfresh(q, fd["n"]):
                    continue
                out.append((f, "shares", fd["n"]))
        elif o[0] == "part":
            p = o[1]
            t = last_type(M, q, p)
            if t is None or M.shares(t):
                out.append((f, "shares", effects.show(p)))
        elif o[0] == "made":
            for i, z in enumerate(o[2]):
                if z < 0 or not M.shares(f.N[z].get("t")):
                    continue
                ps = [p for kd, p in a.ev(z) if p[0] == ("t",)]
                if not ps:
                    continue
                keep, cs = retained(M, o[1], i, len(o[2])) if o[1] else (True, [])
                if keep:
                    out.append((f, "shares", effects.show(ps[0])))


def sharefields(M, q):
    out = [fd for fd in M.fields(q) if not fd.get("mu") and M.shares(fd["t"])]
    c = M.cl.get(q)
    for b, t in (c.bases if c is not None else ()):
        r = t.r if t is not None and t.r else b
        if r and (M.cl.get(r) is not None) and memo.strip(r) != "sequant::Expr":
            out += sharefields(M, r)
    return out


def last_type(M, q, p):
    for s in reversed(p[1]):
        if not isinstance(s, str):
            return s.t
        if s in ("[]",):
            continue
    return None


def refreshed(M, f, a, var, fld, root):
    """var.fld = something that shares nothing with root, whenever it is assigned"""
    ok = False
    for x in f.walk():
        nd = f.N[x]
        if nd["k"] == "asg" or nd["k"] == "call" and nd.get("d") is not None and nd["d"].n in (
                "operator=", "reset"):
            for kd, p in a.ev(nd["c"][0]):
                if p[0] == ("v", var) and p[1] and not isinstance(p[1][0], str) and p[1][0].n == fld:
                    vals = set()
                    for z in nd["c"][1:]:
                        vals |= set(a.ev(z))
                    # a heap object holding a copy of the pointee shares nothing if it is flat
                    bad = [v for v in vals if v[1][0] == root[0] and v[0] != "H" or
                           v[1][0] == root[0] and v[0] == "H" and M.pointee_shares(last_type(M, f.c, v[1]))]
                    if bad:
                        return False
                    ok = True
    return ok


def pointee_shares(self, t):
    if t is None:
        return True
    if t.a and t.a[0] is not None:
        return self.shares(t.a[0])
    return True


def copyfresh(self, q, fld):
    """does the user-written copy constructor of q give fld fresh contents?"""
    for g in self.P.fns.values():
        if g.c == q and g.fk == "copy" and not g.dflt and not g.imp:
            a = self.AN(g)
            for i in g.inits:
                if i.get("d") is not None and i["d"].n == fld:
                    return not any(v[1][0] == ("p", 0) and v[0] != "H" for v in a.ev(i["e"]))
            return not aliased_fill(self, g, a, fld)
    return False


Model.pointee_shares = pointee_shares
Model.copyfresh = copyfresh


def aliased_fill(M, g, a, fld):
    """does g store handles taken from its argument into this->fld?"""
    for x in g.walk():
        nd = g.N[x]
        if nd["k"] == "asg" or nd["k"] == "call" and nd.get("d") is not None:
            tgt = None
            if nd["k"] == "asg":
                tgt, vals = nd["c"][0], nd["c"][1:]
            else:
                obj, args = a.argvals(nd)
                if obj is None or obj < 0:
                    if nd["d"].n == "operator=" and len(nd["c"]) == 2:
                        tgt, vals = nd["c"][0], nd["c"][1:]
                    elif nd["d"].n in ("copy", "transform", "ranges::copy"):
                        continue
                    else:
                        continue
                else:
                    tgt, vals = obj, args
            if not any(p[0] == ("t",) and p[1] and not isinstance(p[1][0], str) and p[1][0].n == fld
                       for kd, p in a.ev(tgt)):
                continue
            for z in vals:
                if z >= 0 and M.shares(g.N[z].get("t")) and any(
                        p[0] == ("p", 0) for kd, p in a.ev(z)):
                    return True
    return False


def judge_deep(M, q, out, r):
    """a class whose copies must be independent"""
    for fd in sharefields(M, q):
        if fd["n"] in DERIVEDNET and False:
            continue
        user = [g for g in M.P.fns.values() if g.c == q and g.fk in ("copy", "copy=") and not g.imp and not g.dflt]
        if r is not None:
            r.count("shared members of networks")
        if not user:
            out.append((q, "shares", fd["n"]))
            continue
        for g in user:
            a = M.AN(g)
            bad = aliased_fill(M, g, a, fd["n"])
            for i in g.inits:
                if i.get("d") is not None and i["d"].n == fd["n"] and any(
                        v[1][0] == ("p", 0) for v in a.ev(i["e"])):
                    bad = True
            if bad:
                out.append((g, "shares", fd["n"]))


def analyse(P, E, scope, deep, value, r=None):
    M = Model(P, E)
    out = []
    seen = set()
    for f in P.fns.values():
        if f.lam or f.b is None or not f.c or not f.c.startswith("sequant"):
            continue
        if f.fk in COPYK and not f.imp and not f.dflt:
            if "detail::designated" in f.c:
                continue
            pr = []
            need, got = coverage(M, f, pr)
            if r is not None:
                r.count("user-written copy/move functions")
                r.count("members to be copied", len(need))
                r.sample("%s (%s): %s" % (f.c, f.fk, ", ".join(sorted(need))))
            bad = need - got
            for n in sorted(bad):
                out.append((f, "drops", n))
        elif f.n in CLONES and not f.st and memo.strip(f.c) not in ("sequant::ExprPtr", "sequant::Expr",
                                                                     "sequant::AbstractTensor"):
            if memo.strip(f.c) == "sequant::FullBinaryNode":
                continue
            judge_clone(M, f, out, r)
    for c in P.clss:
        s = memo.strip(c.q)
        if c.q in seen or c.lam:
            continue
        seen.add(c.q)
        if s in deep:
            if c.fields:
                judge_deep(M, c.q, out, r)
        if s in value and c.fields and not getattr(c, "dep", False):
            for fd in c.fields:
                if r is not None:
                    r.count("members of value classes")
                t = fd["t"]
                if t is not None and M.shares(t):
                    out.append((c.q, "aliases", fd["n"]))
    return out


TEXT = {
    "drops": "%s does not carry over %s from its source on every path",
    "omits": "%s omits %s: the clone differs from the original",
    "misplaces": "%s passes another member where %s is expected",
    "shares": "%s leaves %s shared with the original",
    "aliases": "copies of %s would share state through its member %s",
}


def run(pid):
    r = Report(pid, RULE)
    S = selftest.program("copies")
    got = {((w if isinstance(w, str) else w.c).split("::")[-1], k, d) for w, k, d in analyse(
        S, effects.Eff(S), None, {"sequant::NetBad", "sequant::NetGood", "sequant::NetDflt"},
        {"sequant::ValBad", "sequant::ValGood"})}
    for n, k in (("MissInit", "drops"), ("MissAsg", "drops"), ("PathAsg", "drops"), ("BaseOnly", "drops"), ("BaseMiss", "drops"), ("Cross", "drops"),
                 ("CloneMiss", "omits"), ("CloneShare", "shares"), ("CloneShare2", "shares"),
                 ("CloneSwap", "misplaces"), ("CloneFill", "shares"), ("NetBad", "shares"), ("NetDflt", "shares"), ("ValBad", "aliases")):
        r.selftest("fires on " + n, any(g[0] == n and g[1] == k for g in got))
    r.selftest("silent on the good ones", not any(g[0] in ("Good", "GoodSwap", "GoodLoop", "CloneGood", "CloneGood2",
                                                          "CloneGood3", "CloneFillGood", "BaseAll", "NetGood", "ValGood") for g in got))
    P = facts.load()
    E = effects.Eff(P)
    fam = family(P)
    for w, k, d in analyse(P, E, fam, DEEP, VALUE, r):
        if isinstance(w, str):
            c = P.cls.get(w)
            r.find("%s|%s|%s" % (memo.strip(w), k, d), "%s:%s" % (c.f, c.l) if c is not None else w,
                   TEXT[k] % (memo.strip(w), d))
        else:
            r.find("%s|%s|%s|%s" % (memo.strip(w.q), w.fk or w.n, k, d), w.loc(),
                   TEXT[k] % (memo.strip(w.q), d))
    r.floor("user-written copy/move functions", 16)
    r.floor("clone functions", 9)
    r.floor("members to be copied", 60)
    r.floor("shared members of networks", 3)
    r.floor("members of value classes", 15)
    return r.finish()
