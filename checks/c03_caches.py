"""C03: derived data cached by objects is never stale."""
from checks import c02_hash as H
from sqlib import effects, facts, memo, selftest
from sqlib.report import Report

TECHNIQUE = ("memo discovery (nullable mutable members filled under an emptiness test, flag-guarded derived members, "
             "counts initialised from a sibling container) + interprocedural may-be-stale dataflow over clang CFGs")
NOTE = ("Decides every public member of every class owning a cache. Sources of a cache are derived from the code "
        "that fills it. In-place maintenance of a cache is accepted as such, its arithmetic is not checked. "
        "Mutation through a separately held handle (a shared container) is outside the property.")
RULE = ("A cache is (a) a mutable optional/smart pointer that a const member fills after finding it empty, (b) members "
        "guarded by a have-flag, (c) a count initialised from a sibling container. Its sources are the members the "
        "filling code reads. On every CFG path of every public member of the owning class, a write to a source (or "
        "handing it out for modification) is made while the cache is certainly empty, accompanied by in-place "
        "maintenance of the cache, or followed by a reset or refill before return. A cache is only ever given the "
        "computed value, the same cache of another object, or nothing.")

NULLABLE = ("std::optional<", "std::shared_ptr<", "std::unique_ptr<")


def memfield(f, x):
    x = memo.unwrap(f, x)
    if x is not None and x >= 0 and f.N[x]["k"] == "mem" and f.N[x].get("d") is not None \
            and f.N[x]["d"].k == "field":
        return f.N[x]["d"]
    return None


def discover(P):
    """-> {memo key: (kind, filling functions)}"""
    out = {}
    mut = set()
    ftype = {}
    for c in P.clss:
        for fd in c.fields:
            k = (memo.strip(c.q), fd["n"])
            ftype[k] = fd["t"]
            if fd.get("mu") and fd["t"].s.startswith(NULLABLE):
                mut.add(k)
    tests, fills = {}, {}
    tr, fa = {}, {}
    for f in P.fns.values():
        for x, nd in enumerate(f.N):
            if nd["k"] in ("asg", "call") and nd.get("c"):
                d = memfield(f, nd["c"][0])
                if d is None:
                    continue
                k = memo.fkey(d)
                op = "operator=" if nd["k"] == "asg" else \
                    (nd["d"].n if nd.get("d") is not None else "")
                if k in mut and op in memo.FILLING:
                    g = f
                    while g is not None and g.lam and g.par and g.par in P.fns:
                        g = P.fns[g.par]
                    if g.co and not g.lam:
                        fills.setdefault(k, set()).add(g.u)
                if nd["k"] == "asg" and nd["o"] == "=" and f.fk is None:
                    r = memo.unwrap(f, nd["c"][1])
                    if r >= 0 and f.N[r]["k"] == "bool":
                        (tr if f.N[r]["v"] else fa).setdefault(k, set()).add(f.u)
        for x, nd in enumerate(f.N):
            if nd["k"] == "if" and nd["c"]:
                neg = False
                for y in f.subtree(nd["c"][0]):
                    d = memfield(f, y) if f.N[y]["k"] == "mem" else None
                    if d is not None:
                        tests.setdefault(memo.fkey(d), set()).add(f.u)
    for k, us in fills.items():
        if k in tests and k[0] != "sequant::WickTheorem":
            out[k] = ("memo", us)
    for k, us in tr.items():
        # guarded recomputation: some function tests the flag and runs the setter
        if not (k in fa and k in tests):
            continue
        ok = bool(us & tests[k])
        for u in tests[k]:
            f = P.fns[u]
            for x, nd in enumerate(f.N):
                if nd["k"] != "if":
                    continue
                if not any(memfield(f, y) is not None and memo.fkey(memfield(f, y)) == k
                           for y in f.subtree(nd["c"][0]) if f.N[y]["k"] == "mem"):
                    continue
                for y in f.subtree(x):
                    if f.N[y]["k"] == "call" and {g.u for g in P.targets(f, f.N[y])} & us:
                        ok = True
        if ok and len({P.fns[u].c for u in us}) == 1:
            out[k] = ("flag", us)
    for f in P.fns.values():
        if not f.c or f.fk != "ctor":
            continue
        for it in f.inits:
            d, n = it.get("d"), it.get("e", -1)
            if d is None or d.k != "field" or n < 0 or d.mu:
                continue
            t = ftype.get(memo.fkey(d))
            if t is None or t.s not in ("unsigned long", "long", "int", "unsigned int",
                                        "std::size_t", "size_t"):
                continue
            rs = set()
            for y in f.subtree(n):
                e = memfield(f, y) if f.N[y]["k"] == "mem" else None
                if e is not None and f.N[memo.unwrap(f, f.N[y]["c"][0])]["k"] == "this":
                    rs.add(memo.fkey(e))
            rs = {k for k in rs if ftype.get(k) is not None and ftype[k].r}
            if rs:
                k = memo.fkey(d)
                o = out.setdefault(k, ("count", set(), set()))
                o[2].update(rs)
    return out


def sources(P, E, AN, k, spec):
    """members the filling code reads and does not itself produce"""
    S = memo.Sources(P, E, AN)
    src, base = set(), set()
    for u in sorted(spec[1]):
        f = P.fns[u]
        r, b = S.reads(f, f.c, {k})
        src |= r
        if b:
            base.add(memo.strip(f.c))
        if spec[0] == "flag":
            for r, s in E.W.get(u, ()):
                if r == ("t",) and s and not isinstance(s[0], str):
                    # produced here: rebuilt from scratch
                    if memo.fkey(s[0]) != k:
                        src.discard(memo.fkey(s[0])) if rebuilt(f, s[0]) else None
    src.discard(k)
    return src, base


def rebuilt(f, d):
    """f clears or replaces the member as a whole"""
    for nd in f.N:
        if nd["k"] in ("call", "asg") and nd.get("c"):
            e = memfield(f, nd["c"][0])
            if e is not None and memo.fkey(e) == memo.fkey(d):
                op = "operator=" if nd["k"] == "asg" else \
                    (nd["d"].n if nd.get("d") is not None else "")
                if op in ("clear", "operator=", "reset", "assign"):
                    return True
    return False


def analyse(P, E, r=None):
    cache = {}

    def AN(f):
        a = cache.get(f.u)
        if a is None:
            a = cache[f.u] = E.analysis(f)
        return a
    out = []
    found = discover(P)
    for k in sorted(found):
        if k[1] == "hash_value_":
            continue                      # C02
        sp = found[k]
        if sp[0] == "count":
            src, base = sp[2], set()
            fill = set()
        else:
            src, base = sources(P, E, AN, k, sp)
            fill = H.closure(E, sp[1])
        M = memo.Memo(P, E, AN, memo.Spec(k[1], {k}, src, base, shallow=sp[0] == "count"),
                      fill).run()
        if r is not None:
            r.count("caches")
            r.count("caches of kind " + sp[0])
            r.count("cache sources", len(src) + len(base))
            r.sample("cache %s::%s (%s) from %s" % (
                k[0], k[1], sp[0], ", ".join(sorted(n for _, n in src)) +
                (" elements" if base else "")))
        own = M.holders()
        for f in P.fns.values():
            if r is not None and f.c and memo.strip(f.c) in own and M.active(f):
                r.count("members that touch a source")
        for u, d in M.final.items():
            f = P.fns[u]
            if not f.c or memo.strip(f.c) not in own:
                continue
            for o, (uu, x) in sorted(d.items(), key=lambda kv: effects.show(kv[0])):
                out.append((k, f, o, P.fns[uu], x, "stale"))
        if sp[0] == "memo":
            for f, x, kind, m in M.fills:
                if kind != "fill":
                    continue
                g = f
                while g.lam and g.par and g.par in P.fns:
                    g = P.fns[g.par]
                if g.u in sp[1]:
                    continue
                nd = f.N[x]
                if any(memfield(f, y) is not None and memo.fkey(memfield(f, y)) == k
                       for z in nd["c"][1:] if z >= 0 for y in f.subtree(z)
                       if f.N[y]["k"] == "mem"):
                    continue              # the same cache of another object
                out.append((k, f, None, f, x, "filled with something else"))
            for f in P.fns.values():
                if not f.c or memo.strip(f.c) not in own:
                    continue
                for it in f.inits or ():
                    d, n = it.get("d"), it.get("e", -1)
                    if d is None or d.k != "field" or memo.fkey(d) != k or n < 0 or \
                            f.imp or f.dflt:
                        continue
                    sub = [y for y in f.subtree(n)]
                    if any(f.N[y]["k"] == "mem" and memfield(f, y) is not None and
                           memo.fkey(memfield(f, y)) == k for y in sub):
                        continue
                    if any(f.N[y]["k"] in ("ref", "mem", "call", "str") and
                           not (f.N[y].get("d") is not None and f.N[y]["d"].n == "nullopt")
                           for y in sub):
                        out.append((k, f, None, f, n, "filled with something else"))
    return out, found


STRUCT = {"insert", "erase", "push_back", "emplace_back", "emplace", "pop_back", "clear",
          "resize", "assign", "swap", "adjoint", "operator="}


def split(P, E, r):
    """NormalOperator::ncreators_ follows structural changes of the operator string"""
    out = []
    for f in P.fns.values():
        if not f.c or memo.strip(f.c) != "sequant::NormalOperator" or f.lam or \
                f.imp or f.dflt or f.fk in memo.CTORS:
            continue
        for x, nd in enumerate(f.N):
            if nd["k"] != "call" or nd.get("d") is None or nd["d"].n not in STRUCT or \
                    not nd.get("c") or nd["d"].c is None:
                continue
            o = memo.unwrap(f, nd["c"][0])
            if o < 0 or f.N[o]["k"] != "this":
                continue
            if memo.strip(nd["d"].c) == "sequant::NormalOperator" and nd["d"].n != "operator=":
                continue
            r.count("structural changes of operator strings")
            if not any(p[0] == ("t",) and p[1] and not isinstance(p[1][0], str) and
                       p[1][0].n == "ncreators_" for p in E.W.get(f.u, ())):
                out.append((f, x))
    return out


def run(pid):
    r = Report(pid, RULE)
    S = selftest.program("caches")
    got, found = analyse(S, effects.Eff(S))
    r.selftest("caches found", {k[1] for k in found} == {"label_", "have_edges_", "net_"})
    names = {f.n for _, f, _, _, _, _ in got}
    for n in ("bad_set", "bad_add", "bad_fill", "bad_bra", "bad_maint"):
        r.selftest("fires on " + n, n in names)
    r.selftest("silent on the good ones", not [n for n in names if not n.startswith("bad")])

    P = facts.load()
    E = effects.Eff(P)
    got, found = analyse(P, E, r)
    r.floor("caches of kind memo", 6)
    r.floor("caches of kind flag", 3)
    r.floor("caches of kind count", 2)
    r.floor("members that touch a source", 40)
    for k, f, o, g, x, why in got:
        r.find("%s::%s|%s|%s" % (k[0], k[1], memo.strip(f.q), why), g.loc(x),
               "%s can leave %s::%s stale: a member it is derived from is changed and the "
               "cache is neither reset nor refilled" % (memo.strip(f.q), k[0], k[1])
               if why == "stale" else
               "%s gives %s::%s a value that is not the computed one" %
               (memo.strip(f.q), k[0], k[1]))
    for f, x in split(P, E, r):
        r.find("ncreators_|%s" % memo.strip(f.q), f.loc(x),
               "%s changes the operator string without updating the number of creators" %
               memo.strip(f.q))
    r.floor("structural changes of operator strings", 3)
    return r.finish()
