"""C24: memoized computations survive failure and concurrent use."""
from sqlib import facts, flow, memo, selftest
from sqlib.report import Report
from checks import c23_threads as c23

TECHNIQUE = ("path-sensitive protocol analysis (lock held / placeholder outstanding / filled / waiters notified / iterators stale) of every "
             "function that waits on a condition variable, with exceptional exits and scope guards")
NOTE = ("Applies to the helper that computes a value once for all threads (every function waiting on a condition variable). That the "
        "computation itself terminates is not decided. std::map, std::set and the std::unordered containers are taken to keep "
        "references to elements valid when others are inserted.")
RULE = ("In every function that waits on a condition variable: the wait is repeated until its condition holds; an iterator, pointer or "
        "reference into the shared container obtained before a wait is not used after it unless obtained anew; a reference to an element "
        "leaves the function only if the container keeps references valid under insertion; the container is touched only while the lock "
        "is held. Once a placeholder without value is inserted, every way out - normal or by exception - either fills it or removes it, "
        "under the lock, and then wakes all waiters (notify_all); an entry is filled only after the computation returned, never in a "
        "handler or a destructor.")

STABLE = ("std::map", "std::unordered_map", "std::set", "std::unordered_set", "std::multimap", "std::list", "std::deque")
LOCKS = ("std::unique_lock", "std::scoped_lock", "std::lock_guard", "std::shared_lock")


def bare(t):
    return memo.strip(t.s.replace("const ", "")).strip(" &*")


def iscv(t):
    return t is not None and bare(t).startswith("std::condition_variable")


def islock(t):
    return t is not None and bare(t) in LOCKS


class Ctx:
    """one function waiting on a condition variable"""

    def __init__(self, P, M, f, out):
        self.P, self.M, self.f, self.out = P, M, f, out
        self.lambdas = {}
        self.caches = set()
        self.waits = []

    def note(self, n, key, text, f=None):
        self.out.append((f or self.f, n, key, text))


def waits_in(f):
    out = []
    for n in f.walk():
        nd = f.N[n]
        if nd["k"] == "call" and nd.get("m") and nd.get("d") is not None and nd["d"].n in ("wait", "wait_for", "wait_until") and \
                (nd["d"].c or "").startswith("std::condition_variable"):
            out.append(n)
    return out


def optional(t):
    return t is not None and ("std::optional<" in t.s or "std::unique_ptr<" in t.s or "std::shared_ptr<" in t.s or "boost::optional" in t.s)


def is_container(t):
    s = bare(t) if t is not None else ""
    return s.endswith(("map", "set", "vector", "multimap")) and "iterator" not in s


def caches_of(f):
    """containers the function looks entries up in"""
    out = set()
    for n in f.walk():
        nd = f.N[n]
        if nd["k"] == "call" and nd.get("m") and nd.get("d") is not None and nd["c"]:
            v = c23.var_of(f, nd["c"][0])
            if v is not None and v.t is not None and is_container(v.t):
                out.add(v)
    return out


def derived_from(f, n, cs):
    """does expression n denote an iterator/reference into one of the containers cs?"""
    for x in f.subtree(n):
        nd = f.N[x]
        if nd["k"] == "call" and nd.get("m") and nd.get("d") is not None and nd["c"] and \
                nd["d"].n in ("find", "begin", "end", "try_emplace", "emplace", "insert", "insert_or_assign", "at", "operator[]",
                              "lower_bound", "upper_bound", "emplace_hint", "extract"):
            v = c23.var_of(f, nd["c"][0])
            if v in cs:
                return True
    return False


def analyse_one(P, M, f, out, cnt):
    W = waits_in(f)
    cs = caches_of(f)
    cnt["waits"] += len(W)
    # ---- waits are repeated
    for w in W:
        nd = f.N[w]
        need = 2 if nd["d"].n == "wait" else 3
        args = nd["c"][1:]
        if len(args) >= need:
            continue
        if not any(f.N[a]["k"] in ("for", "while", "do") for a in f.ancestors(w)):
            out.append((f, w, "once", "waits once without testing afterwards that the value is there (spurious wake-ups)"))
    # ---- iterators obtained before a wait
    erased = any(removes(g, x) for g in all_bodies(P, f) for x in g.walk())
    vol = set()
    for v in cs:
        node = bare(v.t) in STABLE
        if not node or erased:
            vol.add(v)
    hold = {}
    copies = set()
    for n in f.walk():
        nd = f.N[n]
        if nd["k"] == "var" and nd.get("c"):
            ds = [nd["d"]] + [b for b in nd.get("b", ()) if b is not None]
            t = nd["d"].t
            isref = t is not None and (t.ref or t.ptr) or "iterator" in (t.s if t is not None else "") or nd.get("b")
            if derived_from(f, nd["c"][0], vol) and isref:
                for d in ds:
                    hold[d] = n
            elif any(f.N[x]["k"] == "ref" and f.N[x].get("d") in hold for x in f.subtree(nd["c"][0])) and isref:
                for d in ds:
                    hold[d] = n
        elif (nd["k"] == "asg" or nd["k"] == "call" and nd.get("o") == "=") and len(nd["c"]) == 2:
            v = c23.var_of(f, nd["c"][0])
            if v is not None and v.k == "var" and derived_from(f, nd["c"][1], vol):
                hold[v] = n
                t = memo.unwrap(f, nd["c"][0])
            elif derived_from(f, nd["c"][1], vol):
                for x in f.subtree(nd["c"][0]):         # std::tie(it, inserted) = ...
                    if f.N[x]["k"] == "ref" and f.N[x].get("d") is not None and f.N[x]["d"].k == "var" and \
                            f.N[x]["d"].t is not None and "iterator" in f.N[x]["d"].t.s:
                        hold[f.N[x]["d"]] = n
    locks = {f.N[n]["d"]: n for n in f.walk() if f.N[n]["k"] == "var" and islock(f.N[n].get("t") or f.N[n]["d"].t)}
    guards = scope_guards(P, M, f, out, cnt)
    inserts, fills, clears = set(), set(), set()
    for n in f.walk():
        k = action(P, M, f, n, cs)
        if k == "insert":
            inserts.add(n)
        elif k == "fill":
            fills.add(n)
        elif k == "remove":
            clears.add(n)
    cnt["placeholders"] += len(inserts)
    cnt["fills"] += len(fills)
    disarm = {}
    for n in f.walk():
        nd = f.N[n]
        if nd["k"] == "asg" and len(nd["c"]) == 2:
            t = memo.unwrap(f, nd["c"][0])
            if f.N[t]["k"] == "mem" and c23.var_of(f, f.N[t]["c"][0]) in guards:
                disarm[n] = c23.var_of(f, f.N[t]["c"][0])
        elif nd["k"] == "call" and nd.get("m") and nd.get("d") is not None and nd["c"]:
            v = c23.var_of(f, nd["c"][0])
            if v in guards and nd["d"].n not in ("operator()",):
                disarm[n] = v
    for n in fills:
        if any(f.N[a]["k"] == "catch" for a in f.ancestors(n)):
            out.append((f, n, "handler", "an entry is filled in a handler: a failed computation is stored"))
    for n in f.walk():
        if f.N[n]["k"] == "try":
            for h in f.N[n]["c"][1:]:
                again = any(f.N[x]["k"] == "throw" or f.N[x]["k"] == "call" and f.N[x].get("d") is not None and
                            (f.N[x]["d"].nr or f.N[x]["d"].n == "rethrow_exception") for x in f.subtree(h))
                if not again:
                    out.append((f, h, "handler", "a failure of the computation is swallowed and something is stored"))
    early = set()

    # state: (held locks, stale holders, placeholder: 0 none 1 outstanding, notify due, armed guards)
    def transfer(e, st, report):
        held, stale, ph, due, armed = st
        if isinstance(e, list):
            return st
        nd = f.N[e]
        if e in W:
            stale = frozenset(hold)
            # the predicate runs after waking up
            if report:
                for a in nd["c"][2:]:
                    u = memo.unwrap(f, a)
                    gs = P.lambdas_of(f.N[u]) if f.N[u]["k"] == "lambda" else M.callables(f, a)
                    for g in gs:
                        for x in g.walk():
                            if g.N[x]["k"] == "ref" and g.N[x].get("d") in hold:
                                early.add((g, x, g.N[x]["d"].n))
        if nd["k"] == "var":
            d = nd["d"]
            if d in locks:
                a = nd.get("c")
                defer = any(f.N[x].get("d") is not None and f.N[x]["d"].n in ("defer_lock",) for x in f.subtree(e))
                if not defer:
                    held = held | {d}
            for x in [d] + [b for b in nd.get("b", ()) if b is not None]:
                stale = stale - {x}
            if d in guards:
                armed = armed | {d}
        if nd["k"] == "call" and nd.get("m") and nd.get("d") is not None and nd["c"]:
            v = c23.var_of(f, nd["c"][0])
            if v in locks and nd["d"].n in ("unlock", "release"):
                held = held - {v}
            if v in locks and nd["d"].n in ("lock",):
                held = held | {v}
            if report and v in cs and not held and (v.k == "parm" or v.k == "field" or v.sc in ("slocal", "global", "member")):
                out.append((f, e, "unlocked", "the shared container %s is used without holding the lock" % v.n))
            if iscv(v.t if v is not None else None) and nd["d"].n == "notify_all":
                due = False
            if iscv(v.t if v is not None else None) and nd["d"].n == "notify_one" and report:
                out.append((f, e, "one", "wakes only one of the threads that may be waiting"))
        if nd["k"] == "asg" or nd["k"] == "call" and nd.get("o") == "=":
            v = c23.var_of(f, nd["c"][0])
            u = memo.unwrap(f, nd["c"][0])
            if v is not None and f.N[u]["k"] == "ref":
                stale = stale - {v}
            for x in f.subtree(nd["c"][0]):
                if f.N[x]["k"] == "ref" and f.N[x].get("d") in hold and hold[f.N[x]["d"]] == e:
                    stale = stale - {f.N[x]["d"]}
        if nd["k"] == "ref" and nd.get("d") in stale and report:
            par = f.parent(e)
            # the left side of an assignment gives it a new value
            tgt = False
            for a in f.ancestors(e):
                if f.N[a]["k"] == "asg" or f.N[a]["k"] == "call" and f.N[a].get("o") == "=":
                    tgt = e in set(f.subtree(f.N[a]["c"][0])) and hold.get(nd["d"]) is not None and \
                        (f.N[memo.unwrap(f, f.N[a]["c"][0])].get("d") is nd["d"] or hold[nd["d"]] == a)
                    break
            if not tgt:
                out.append((f, e, "stale", "'%s' was obtained before waiting; other threads may have changed the container meanwhile" % nd["d"].n))
        if e in inserts:
            ph = 1
        if e in fills:
            if ph == 1 or True:
                ph, due = 0, True
        if e in clears:
            if ph == 1:
                ph, due = 0, True
        if e in disarm:
            if report and ph == 1:
                out.append((f, e, "disarm", "the guard that withdraws the placeholder is disarmed before the entry is filled"))
            armed = armed - {disarm[e]}
        if report and ph == 1 and M.throws(f, e) and e not in inserts and not (armed & set(guards)):
            ok = False
            for t, hs in M.guards(f, e):
                for h in hs:
                    if f.N[h].get("all") and withdraws(P, M, f, h, cs):
                        ok = True
            if not ok and not islock(nd.get("t")):
                out.append((f, e, "exception", "an exception here leaves the placeholder behind: waiting threads are never woken"))
        return held, stale, ph, due, armed

    def edge(b, k, st):
        held, stale, ph, due, armed = st
        # locks and guards whose scope ends are handled through dtor elements
        for e in b["e"]:
            if isinstance(e, list) and e[0] == "dtor":
                held = held - {e[1]}
                armed = armed - {e[1]}
                if e[1] in guards and ph == 1 and e[1] in st[4]:
                    ph, due = 0, False
        # inserted / found tests: a placeholder exists only where it was inserted
        a = flow.atoms(f, b)
        if a is not None and ph == 1:
            c, neg = a
            t = inserted_test(f, c, inserts)
            if t is not None:
                true = (k == 0) != neg
                if true != t:
                    ph = 0
        return held, stale, ph, due, armed

    def join(x, y):
        return x[0] & y[0], x[1] | y[1], max(x[2], y[2]), x[3] or y[3], x[4] & y[4]

    inn = flow.solve(f, (frozenset(), frozenset(), 0, False, frozenset()), transfer, edge, join)
    flow.replay(f, inn, transfer)
    for g, x, nm in sorted(early, key=lambda z: (z[1])):
        out.append((g, x, "stale", "'%s' was obtained before waiting; other threads may have changed the container meanwhile" % nm))
    ex = inn.get(f.g["ex"])
    first = W[0]
    if ex is not None:
        if ex[2] == 1:
            out.append((f, first, "left", "a path returns with the placeholder neither filled nor removed: waiting threads are never woken"))
        if ex[3]:
            out.append((f, first, "unwoken", "a path returns after changing the entry without waking the waiting threads"))
    if not inserts:
        out.append((f, first, "noplaceholder", "waits for an entry, but nothing marks an entry as being computed"))
    # ---- references handed out
    if f.t is not None and (f.t.ref or f.t.ptr):
        for v in cs:
            if bare(v.t) not in STABLE:
                out.append((f, first, "reference",
                            "hands out a reference to an element of %s, which other threads' insertions invalidate" % bare(v.t)))


def all_bodies(P, f):
    out = [f]
    for n in f.walk():
        if f.N[n]["k"] == "lambda":
            out += P.lambdas_of(f.N[n])
    # local classes
    for g in P.fns.values():
        if g.par == f.u and g not in out:
            out.append(g)
        elif g.c and g.fk == "dtor" and g.f == f.f and g not in out and \
                any(f.N[n]["k"] == "var" and f.N[n]["d"].t is not None and g.ct is not None and
                    f.N[n]["d"].t.s.replace("const ", "") == g.ct.s for n in f.walk()):
            out.append(g)
    return out


def removes(f, n):
    nd = f.N[n]
    return nd["k"] == "call" and nd.get("m") and nd.get("d") is not None and nd["d"].n in ("erase", "clear", "extract") and nd["c"] and \
        (lambda v: v is not None and is_container(v.t))(c23.var_of(f, nd["c"][0]))


def empty_value(f, n):
    """nullopt, {}, nullptr or a default value"""
    for x in f.subtree(n):
        nd = f.N[x]
        if nd["k"] == "ref" and nd.get("d") is not None and nd["d"].n == "nullopt" or nd["k"] == "null":
            return True
    u = memo.unwrap(f, n)
    nd = f.N[u]
    return nd["k"] in ("ctor", "ilist", "zero") and not nd.get("c")


def action(P, M, f, n, cs):
    nd = f.N[n]
    if nd["k"] == "call" and nd.get("m") and nd.get("d") is not None and nd["c"]:
        v = c23.var_of(f, nd["c"][0])
        nm = nd["d"].n
        if v in cs:
            if nm in ("erase", "extract", "clear"):
                return "remove"
            if nm in ("try_emplace", "emplace", "insert", "insert_or_assign", "emplace_hint"):
                args = nd["c"][1:]
                if any(empty_value(f, a) for a in args) or nm == "try_emplace" and len(args) == 1:
                    return "insert"
                if len(args) >= 1:
                    return "fill"
            if nm == "operator[]":
                # cache[key] = value / cache[key];
                p = f.parent(n)
                while p is not None and f.N[p]["k"] in ("cast", "x") and len(f.N[p]["c"]) == 1:
                    p = f.parent(p)
                if p is not None and f.N[p]["k"] in ("block",):
                    return "insert"
                if p is not None and (f.N[p]["k"] == "asg" or f.N[p]["k"] == "call" and f.N[p].get("o") == "="):
                    return None
        if nm in ("emplace",) and optional(v.t if v is not None else None):
            return "fill"
        if nm in ("emplace",) and optional(f.N[memo.unwrap(f, nd["c"][0])].get("t")):
            return "fill"
    if (nd["k"] == "asg" or nd["k"] == "call" and nd.get("o") == "=") and len(nd["c"]) == 2:
        l = memo.unwrap(f, nd["c"][0])
        t = f.N[l].get("t")
        if t is None and f.N[l].get("d") is not None:
            t = f.N[l]["d"].t
        dep = derived_from(f, l, cs)
        v = c23.var_of(f, l)
        alias = v is not None and v.k == "var" and v.t is not None and (v.t.ref or v.t.ptr or "iterator" in v.t.s)
        if alias:
            alias = any(f.N[x]["k"] == "var" and f.N[x]["d"] is v and f.N[x].get("c") and derived_from(f, f.N[x]["c"][0], cs)
                        for x in f.walk()) or any(
                (f.N[x]["k"] == "asg" or f.N[x]["k"] == "call" and f.N[x].get("o") == "=") and len(f.N[x]["c"]) == 2 and
                any(f.N[y]["k"] == "ref" and f.N[y].get("d") is v for y in f.subtree(f.N[x]["c"][0])) and
                derived_from(f, f.N[x]["c"][1], cs) for x in f.walk())
            if f.N[l]["k"] == "ref" and not (v.t.ref):
                alias = False           # the iterator itself is assigned
        if dep or alias or v in cs and f.N[l]["k"] != "ref":
            return "insert" if empty_value(f, nd["c"][1]) else "fill"
    return None


def inserted_test(f, c, inserts):
    """condition on whether the placeholder was inserted: the truth value meaning it was"""
    u = memo.unwrap(f, c)
    nd = f.N[u]
    d = None
    if nd["k"] == "ref":
        d = nd.get("d")
    if nd["k"] == "mem" and nd.get("d") is not None and nd["d"].n == "second":
        d = c23.var_of(f, nd["c"][0])
    if d is None or d.k not in ("var", "bind"):
        return None
    for n in inserts:
        for a in f.ancestors(n):
            y = f.N[a]
            if y["k"] == "var" and (y["d"] is d or d in [b for b in y.get("b", ()) if b is not None]):
                return True
            if (y["k"] == "asg" or y["k"] == "call" and y.get("o") == "=") and \
                    any(f.N[x]["k"] == "ref" and f.N[x].get("d") is d for x in f.subtree(y["c"][0])):
                return True
    return None


def withdraws(P, M, f, h, cs):
    """handler removes the entry, wakes everybody and rethrows"""
    rem = wake = again = False
    for x in f.subtree(h):
        nd = f.N[x]
        if removes(f, x) or action(P, M, f, x, cs) == "insert":
            rem = True
        if nd["k"] == "call" and nd.get("d") is not None and nd["d"].n == "notify_all":
            wake = True
        if nd["k"] == "throw":
            again = True
        if nd["k"] == "call":
            for g in M.bodies(f, x):
                for y in g.walk():
                    rem |= removes(g, y)
                    wake |= g.N[y]["k"] == "call" and g.N[y].get("d") is not None and g.N[y]["d"].n == "notify_all"
    return rem and wake and again


def scope_guards(P, M, f, out, cnt):
    """locals whose destructor removes the entry and wakes the waiters"""
    got = {}
    for n in f.walk():
        nd = f.N[n]
        if nd["k"] != "var" or nd["d"] is None or nd["d"].t is None or nd["d"].t.ref:
            continue
        bodies = [g for g in P.fns.values() if g.fk == "dtor" and g.ct is not None and g.b is not None and
                  g.ct.s == nd["d"].t.s.replace("const ", "")]
        bodies += [g for x in f.subtree(n) if f.N[x]["k"] == "lambda" for g in P.lambdas_of(f.N[x])
                   if "guard" in nd["d"].t.s.lower() or "scope" in nd["d"].t.s.lower() or "unique_ptr" in nd["d"].t.s]
        for g in bodies:
            rem = [x for x in g.walk() if removes(g, x)]
            if not rem:
                continue
            cnt["guards"] += 1
            wake = [x for x in g.walk() if g.N[x]["k"] == "call" and g.N[x].get("d") is not None and g.N[x]["d"].n == "notify_all"]
            if not wake:
                out.append((g, rem[0], "unwoken", "withdraws the entry without waking the waiting threads"))
            locked = any(g.N[x]["k"] == "var" and islock(g.N[x]["d"].t) and
                         any(a in set(g.ancestors(rem[0])) for a in [g.parent(x)] + list(g.ancestors(x))) for x in g.walk())
            if not locked:
                out.append((g, rem[0], "unlocked", "withdraws the entry without holding the lock"))
            # conditional only on its own flag; the same condition for both
            for x in rem + wake:
                for a in g.ancestors(x):
                    if g.N[a]["k"] == "if" and not own_flag(g, g.N[a]["c"][0]):
                        out.append((g, x, "conditional", "withdraws the entry or wakes the waiters only under a further condition"))
            got[nd["d"]] = g
    return got


def own_flag(g, c):
    u = memo.unwrap(g, c)
    while g.N[u]["k"] in ("un",) and g.N[u].get("o") == "!":
        u = memo.unwrap(g, g.N[u]["c"][0])
    nd = g.N[u]
    return nd["k"] == "mem" and nd.get("t") is not None and nd["t"].boolean or \
        nd["k"] == "call" and nd.get("d") is not None and nd["d"].n in ("uncaught_exceptions",) or nd["k"] == "ref" or \
        nd["k"] == "bin" and any(g.N[x]["k"] == "call" and g.N[x].get("d") is not None and g.N[x]["d"].n == "uncaught_exceptions"
                                 for x in g.subtree(u))


def analyse(P):
    M = c23.Model(P)
    out = []
    cnt = {"functions waiting": 0, "waits": 0, "placeholders": 0, "fills": 0, "guards": 0, "users": 0}
    fs = [f for f in P.fns.values() if not f.lam and f.g and f.g.get("bl") and waits_in(f)]
    for f in fs:
        cnt["functions waiting"] += 1
        analyse_one(P, M, f, out, cnt)
    # computations handed to it: they do not turn a failure into a value
    us = {f.u for f in fs}
    for g in P.fns.values():
        for n in g.walk():
            if g.N[n]["k"] == "call" and any(h.u in us for h in P.targets(g, n)):
                cnt["users"] += 1
                for a in g.N[n]["c"]:
                    u = memo.unwrap(g, a)
                    if g.N[u]["k"] != "lambda":
                        continue
                    for b in P.lambdas_of(g.N[u]):
                        for x in b.walk():
                            if b.N[x]["k"] == "catch" and not any(b.N[y]["k"] == "throw" or b.N[y]["k"] == "call" and
                                                                   b.N[y].get("d") is not None and b.N[y]["d"].nr for y in b.subtree(x)):
                                out.append((b, x, "handler", "a failure of the computation is turned into a value that is stored"))
    return out, cnt


def run(pid):
    rep = Report(pid, RULE)
    S = selftest.program("memoized")
    found, _ = analyse(S)
    hit = set()
    for f, n, k, t in found:
        g = f
        q = g.q
        while g is not None:
            q = g.q
            for part in memo.strip(q).replace("(", "::").split("::"):
                if part.startswith(("bad_", "good_")):
                    hit.add(part.split("(")[0])
            g = S.fns.get(g.par) if g.par else None
    names = {memo.strip(f.q).split("::")[-1] for f in S.fns.values()}
    want = {n for n in names if n.startswith("bad_")}
    good = {n for n in names if n.startswith("good_")}
    rep.selftest("planted defects are found: " + ", ".join(sorted(want)), want <= hit or print("missed", want - hit))
    rep.selftest("correct variants are quiet", not (hit & good) or print("noise", hit & good))
    P = facts.load()
    found, cnt = analyse(P)
    for k, v in cnt.items():
        rep.count(k, v)
    rep.floor("functions waiting", 1)
    rep.floor("placeholders", 1)
    rep.floor("fills", 1)
    for f in P.fns.values():
        if waits_in(f):
            rep.sample("waits on a condition variable: " + memo.strip(f.q))
    for f, n, k, t in found:
        rep.find("%s|%s" % (memo.strip(f.q), k), f.loc(n), "%s: %s" % (memo.strip(f.q), t))
    return rep.finish()
