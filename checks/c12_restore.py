"""C12: temporarily changed settings are always restored."""
from sqlib import facts, flow, memo, selftest, effects
from sqlib.report import Report
from checks import c23_threads as c23

TECHNIQUE = ("typestate analysis over the CFG (setting changed -> guard armed / tag set -> tag reset) with interprocedural effect "
             "summaries, exceptional exits included, and a structural audit of every restoring class")
NOTE = ("A setting is a static-storage variable with a setter; index tags are tracked per function (set / cleared), not per object, and "
        "only on normal exits. Settings changed by functions whose purpose is to change them (no expression, index or network in their "
        "signature) are the caller's business.")
RULE = ("A function that computes (its signature mentions expressions, indices, networks or the Wick engine) changes a process-wide "
        "setting (implicit contexts, registered canonicalizers, cardinal labels, comparers, thread count, locale and format of shared "
        "streams) only if an object whose destructor puts back the previous value is armed before anything that may throw follows; the "
        "object is a named local, holds a by-value copy taken before the change that is not modified afterwards, and is not released. "
        "Classes that restore a setting in their destructor do so unconditionally apart from their own state, cannot be copied, and "
        "their creators save the previous value by value before the change and hand it over. A function that both sets and clears index "
        "tags has cleared them on every normal exit; tags are left set only by functions working on the caller's object, and not by "
        "their outermost callers.")

EXPRISH = ("sequant::ExprPtr", "sequant::ResultExpr", "sequant::Index", "sequant::WickTheorem", "sequant::TensorNetwork",
           "sequant::TensorNetworkV1", "sequant::TensorNetworkV2", "sequant::TensorNetworkV3", "sequant::AbstractTensor")
STICKY = {"setf", "unsetf", "flags", "precision", "imbue", "fill", "copyfmt"}
MANIP = {"setprecision", "setfill", "hex", "oct", "fixed", "scientific", "hexfloat", "boolalpha", "noboolalpha", "showpos",
         "showbase", "uppercase", "left", "right", "internal", "setbase", "setiosflags", "defaultfloat", "showpoint"}
PROCESS = {"setlocale", "global"}


def bare(t):
    return memo.strip(t.s.replace("const ", "")).strip(" &*") if t is not None else ""


def isstream(t):
    b = bare(t)
    return b.startswith("std::") and b.endswith(("stream", "ios"))


class Model:
    def __init__(self, P, E):
        self.P, self.E = P, E
        self.M = c23.Model(P)
        self.exprs = {memo.strip(c.q) for c in P.cls.values() if not c.dep and
                      (memo.strip(c.q) == "sequant::Expr" or "sequant::Expr" in {memo.strip(b) for b in self.bases(c)})}
        self.recs = list(P.clss)
        self.W = {}
        self.direct = {}
        for f in P.fns.values():
            ws = {r[1] for r in (w[0] for w in E.W.get(f.u, ()) if isinstance(w, tuple)) if isinstance(r, tuple) and r and r[0] == "g"}
            if ws:
                self.W[f.u] = ws
        self.settings()

    def bases(self, c):
        out, st = set(), [c]
        while st:
            x = st.pop()
            for q, t in x.bases:
                if q in out:
                    continue
                out.add(q)
                st += [k for k in self.P.cls.values() if k.q == q]
        return out

    def exprish(self, t):
        if t is None:
            return False
        s = t.s.replace("const ", "")
        if s.startswith("std::function") or "comparer_t" in s:
            return False
        b = bare(t)
        if b in self.exprs or b in EXPRISH:
            return True
        if b.startswith(("std::shared_ptr", "std::vector", "boost::container", "std::initializer_list", "std::optional", "std::unique_ptr",
                         "std::pair", "std::tuple", "std::array", "std::span")):
            return any((e + c) in s for e in self.exprs | set(EXPRISH) for c in (">", ",", " "))
        return False

    def computing(self, f):
        """does f compute with expressions (rather than configure)?"""
        if self.exprish(f.t) or any(self.exprish(p.get("d").t if p.get("d") is not None else p.get("t")) for p in f.p):
            return True
        return bool(f.c) and (memo.strip(f.c) in self.exprs or memo.strip(f.c) in EXPRISH)

    def generic(self, f):
        return any((p.get("t") is not None and ("(lambda at" in p["t"].s)) for p in f.p)

    def root(self, f):
        seen = 0
        while f.par and seen < 20:
            g = self.P.fns.get(f.par)
            if g is None:
                return f
            f = g
            seen += 1
        return f

    def settings(self):
        """static variables given a value by a function that does not compute"""
        P, E = self.P, self.E
        writers = {}
        for u, gs in self.W.items():
            for g in gs:
                writers.setdefault(g, []).append(P.fns[u])
        self.setvars = set()
        for g, fs in writers.items():
            if g.t is None or g.n == "instance":
                continue
            for f in fs:
                if self.computing(self.root(f)) or self.generic(f) or f.lam or f.fk in ("ctor", "dtor", "copy", "move"):
                    continue
                rt = f.t
                if rt is None or not (bare(rt) in ("void", "bool") or "Resetter" in rt.s):
                    continue
                if f.p or f.n.startswith(("clear", "reset", "deregister")):
                    self.setvars.add(g)
        # a setter changes a setting and does not compute itself
        self.setters = {}
        for u, gs in self.W.items():
            f = P.fns[u]
            s = gs & self.setvars
            if s and not self.computing(self.root(f)) and not self.generic(f) and not f.lam:
                self.setters[u] = s

    # ------------------------------------------------ what a node changes
    def changes(self, f, n):
        """settings (variables or pseudo settings) changed by node n"""
        nd = f.N[n]
        out = set()
        if nd["k"] == "call" and nd.get("d") is not None:
            d = nd["d"]
            for g in self.P.targets(f, n):
                out |= self.setters.get(g.u, set())
            if d.n in STICKY and nd.get("m") and nd["c"] and len(nd["c"]) > 1:
                v = c23.var_of(f, nd["c"][0])
                if v is not None and isstream(v.t) and (v.k == "parm" and v.t.ref or v.k == "field" and v.t.ref or
                                                        v.sc in ("global", "slocal", "member")):
                    if v.t.s.find("stringstream") < 0:
                        out.add(v)
            if nd.get("o") == "<<" and len(nd["c"]) == 2:
                a = memo.unwrap(f, nd["c"][1])
                an = f.N[a]
                q = an.get("d")
                if q is not None and q.n in MANIP and (q.q or "").startswith("std::"):
                    v = self.stream_root(f, nd["c"][0])
                    if v is not None:
                        out.add(v)
            if d.n in PROCESS and (d.q or "") in ("setlocale", "std::setlocale", "std::locale::global") and len(nd["c"]):
                out.add("locale")
        if nd["k"] == "call" and nd.get("d") is not None and nd.get("m") is None and nd["d"].n in MANIP and nd["c"] and \
                (nd["d"].q or "").startswith("std::"):
            v = c23.var_of(f, nd["c"][0])
            if v is not None and isstream(v.t) and (v.k == "parm" and v.t.ref or v.sc in ("global", "slocal", "member")):
                out.add(v)
        return out

    def stream_root(self, f, n):
        u = memo.unwrap(f, n)
        for _ in range(50):
            nd = f.N[u]
            if nd["k"] == "call" and nd.get("o") == "<<" and nd.get("c"):
                u = memo.unwrap(f, nd["c"][0])
                continue
            break
        v = c23.var_of(f, u)
        if v is not None and isstream(v.t) and (v.k == "parm" and v.t.ref or v.sc in ("global", "slocal", "member")) and \
                "stringstream" not in v.t.s:
            return v
        return None

    # ------------------------------------------------ restoring classes
    def restores(self, t):
        """settings an object of type t puts back when destroyed"""
        if t is None:
            return set(), []
        out, how = set(), []
        s = t.s
        for c in self.recs:
            if c.dep:
                continue
            q = c.q
            if c.lam:
                if "(lambda at" not in s:
                    continue
            elif memo.strip(q).split("::")[-1] not in s:
                continue
            if not (c.ty is not None and c.ty.s in s):
                continue
            for m in c.methods:
                g = self.P.fns.get(m["u"])
                if g is None:
                    continue
                own = bare(t) == memo.strip(q) or t.s.replace("const ", "") == c.ty.s
                if (g.fk == "dtor" and own) or (g.n == "operator()" and not own):
                    w = self.W.get(g.u, set()) & self.setvars
                    if w:
                        out |= w
                        how.append(g)
        return out, how


def saved_value(Mo, f, n, g):
    """expression n denotes a by-value copy, in a local, of the setting g; returns the variable"""
    v = c23.var_of(f, n)
    if v is None or v.k != "var":
        return None, "is not a saved value"
    for h in scope_chain(Mo, f):
        for x in h.walk():
            nd = h.N[x]
            if nd["k"] == "var" and nd["d"] is v:
                t = v.t
                if t is not None and (t.ref or t.ptr):
                    return None, "refers to the setting itself instead of holding its previous value"
                return v, None
    return None, "is not a saved value"


def scope_chain(Mo, f):
    out = [f]
    while f.par:
        f = Mo.P.fns.get(f.par)
        if f is None:
            break
        out.append(f)
    return out


def written(Mo, f, v):
    """nodes that change local v after its initialisation"""
    out = []
    fs = [f]
    for n in f.walk():
        if f.N[n]["k"] == "lambda":
            fs += Mo.P.lambdas_of(f.N[n])
    for g in fs:
        for n in g.walk():
            nd = g.N[n]
            if nd["k"] == "asg" or nd["k"] == "call" and nd.get("o") in ("=", "+=", "-="):
                u = memo.unwrap(g, nd["c"][0])
                if g.N[u]["k"] == "ref" and g.N[u].get("d") is v:
                    out.append((g, n))
            elif nd["k"] == "call" and nd.get("d") is not None and nd["d"].n == "move" and nd["c"]:
                u = memo.unwrap(g, nd["c"][-1])
                if g.N[u]["k"] == "ref" and g.N[u].get("d") is v:
                    out.append((g, n))
    return out


def guard_vars(Mo, f):
    """local guard objects of f: var -> (settings restored, restoring functions)"""
    out = {}
    for n in f.walk():
        nd = f.N[n]
        if nd["k"] == "var":
            t = nd["d"].t
            if t is None or t.ref or t.ptr or nd["d"].sc == "slocal":
                continue
            w, how = Mo.restores(t)
            if w:
                out[nd["d"]] = (w, how, n)
    return out


def empty_init(f, n):
    nd = f.N[n]
    if not nd.get("c"):
        return True
    u = memo.unwrap(f, nd["c"][0])
    u = f.N[u]
    return u["k"] in ("null", "zero") or u["k"] in ("ctor", "ilist") and not [c for c in u.get("c", ()) if f.N[c]["k"] not in ("null", "defarg")]


def check_setting(Mo, f, out, cnt):
    """a computing function (or a lambda in it) that changes settings"""
    P, M = Mo.P, Mo.M
    sites = {}
    for n in f.walk():
        c = Mo.changes(f, n)
        if c:
            sites[n] = c
    if not sites:
        return
    guards = {}
    for g in scope_chain(Mo, f):
        for v, x in guard_vars(Mo, g).items():
            guards[v] = (x[0], x[1], x[2], g)
    cnt["changes of settings"] += len(sites)
    # a changing call that returns a restoring object
    for n, c in list(sites.items()):
        nd = f.N[n]
        t = nd.get("t")
        if t is None or t.ref or t.ptr:
            continue
        w, how = Mo.restores(t)
        if w >= {x for x in c if not isinstance(x, str)} and w:
            a = n
            named = False
            for p in f.ancestors(n):
                k = f.N[p]["k"]
                if k in ("cast", "ctor", "ilist", "x"):
                    a = p
                    continue
                if k == "var" and f.N[p]["d"].sc not in ("slocal", "global"):
                    named = True
                if k == "ret":
                    named = True
                break
            if not named:
                out.append((f, n, "discarded", "the object that would restore the setting is destroyed at once"))
            del sites[n]
    if not sites:
        return
    cond_restore = {}
    restoring = {}
    for n, c in sites.items():
        nd = f.N[n]
        args = nd["c"][1:] if nd.get("m") else nd["c"]
        for a in args:
            v, why = saved_value(Mo, f, a, c)
            if v is not None and saved_from(Mo, f, v, c):
                restoring[n] = v

    def transfer(e, st, report):
        pend, armed = st
        if isinstance(e, list):
            return st
        nd = f.N[e]
        if nd["k"] == "var" and nd["d"] in guards and not empty_init(f, e):
            armed = armed | {nd["d"]}
            pend = frozenset(p for p in pend if not (sites[p] <= guards[nd["d"]][0]))
        if (nd["k"] == "asg" or nd["k"] == "call" and nd.get("o") == "=") and len(nd["c"]) == 2:
            v = c23.var_of(f, nd["c"][0])
            u = memo.unwrap(f, nd["c"][0])
            if v in guards and f.N[u]["k"] == "ref":
                r = f.N[memo.unwrap(f, nd["c"][1])]
                if r["k"] == "null":
                    armed = armed - {v}
                else:
                    armed = armed | {v}
                    pend = frozenset(p for p in pend if not (sites[p] <= guards[v][0]))
        if nd["k"] == "call" and nd.get("m") and nd.get("d") is not None and nd["c"]:
            v = c23.var_of(f, nd["c"][0])
            u = memo.unwrap(f, nd["c"][0])
            if v in guards and f.N[u]["k"] == "ref" and nd["d"].n in ("release", "reset", "dismiss"):
                if nd["d"].n == "reset" and len(nd["c"]) > 1 and f.N[memo.unwrap(f, nd["c"][1])]["k"] != "null":
                    armed = armed | {v}
                else:
                    if nd["d"].n != "reset" and report:
                        out.append((f, e, "released", "the guard that restores the setting is disarmed"))
                    armed = armed - {v}
        if e in sites:
            cover = set()
            for v in armed:
                cover |= guards[v][0]
            if e in restoring:
                pend = frozenset(p for p in pend if not (sites[p] & sites[e]))
            elif not (sites[e] <= cover):
                pend = pend | {e}
        elif pend and report and M.throws(f, e) and not any(f.N[h].get("all") for t, hs in M.guards(f, e) for h in hs):
            # the construction of the guard itself is accepted
            if not any(f.N[a]["k"] == "var" and f.N[a]["d"] in guards for a in f.ancestors(e)) and nd["k"] != "new":
                for p in pend:
                    out.append((f, p, "unguarded", "a setting (%s) is changed; an exception at line %s leaves it changed" %
                                (names(sites[p]), f.line(e))))
        return pend, armed

    def edge(b, k, st):
        if thrown(f, b):
            return None
        pend, armed = st
        for e in b["e"]:
            if isinstance(e, list) and e[0] == "dtor":
                armed = armed - {e[1]}
        # `if (!guard)`: known armed on the other branch
        a = flow.atoms(f, b)
        if a is not None:
            c, neg = a
            v = c23.var_of(f, c)
            if v is None and f.N[c]["k"] == "call" and f.N[c].get("c"):
                v = c23.var_of(f, f.N[c]["c"][0])
            if v in guards:
                if (k == 0) != neg:
                    armed = armed | {v}
        return pend, armed

    start = frozenset()
    inn = flow.solve(f, (frozenset(), start), transfer, edge, lambda x, y: (x[0] | y[0], x[1] & y[1]))
    flow.replay(f, inn, transfer)
    ex = inn.get(f.g["ex"])
    if ex is not None:
        for p in ex[0]:
            out.append((f, p, "left", "a setting (%s) is changed and not restored on a normal exit" % names(sites[p])))
    # the guards' restored values
    for v, (w, how, n, g) in guards.items():
        if not any(sites[s] & w for s in sites):
            continue
        cnt["guards"] += 1
        for h in how:
            for x in h.walk():
                c = Mo.changes(h, x)
                if not c or h.fk == "dtor" or not h.lam:
                    continue
                nd = h.N[x]
                args = nd["c"][1:] if nd.get("m") else nd["c"]
                for a in args:
                    u = memo.unwrap(h, a)
                    for z in h.subtree(a):
                        if h.N[z]["k"] == "ref" and h.N[z].get("d") is not None and h.N[z]["d"].k == "var" and h.N[z]["d"].sc == "local":
                            sv = h.N[z]["d"]
                            if sv.t is not None and (sv.t.ref or sv.t.ptr):
                                out.append((g, n, "alias", "the guard restores from '%s', which refers to the setting itself" % sv.n))
                            ws = [q for q in written(Mo, g, sv) if q[0] is not h]
                            if ws:
                                out.append((ws[0][0], ws[0][1], "alias", "the saved value '%s' is changed before the guard uses it" % sv.n))


def names(c):
    return ", ".join(sorted(x if isinstance(x, str) else x.n for x in c))


def saved_from(Mo, f, v, c):
    """v is initialised from an expression reading one of the settings c"""
    for h in scope_chain(Mo, f):
        for x in h.walk():
            nd = h.N[x]
            if nd["k"] == "var" and nd["d"] is v and nd.get("c"):
                for z in h.subtree(nd["c"][0]):
                    if h.N[z]["k"] == "call" and h.N[z].get("d") is not None:
                        return True
    return False


# ------------------------------------------------------------- restoring classes
def check_classes(Mo, out, cnt):
    P = Mo.P
    for c in Mo.recs:
        if c.dep or c.lam:
            continue
        body = []
        for m in c.methods:
            g = P.fns.get(m["u"])
            if g is not None and (g.fk == "dtor" or g.n == "operator()") and Mo.W.get(g.u, set()) & Mo.setvars:
                body.append(g)
        if not body:
            continue
        for g in body:
            cnt["restoring classes"] += 1
            fields = {x.get("d") for x in c.fields}
            for n in g.walk():
                if not Mo.changes(g, n):
                    continue
                # conditions: own members only
                for a in g.ancestors(n):
                    nd = g.N[a]
                    if nd["k"] in ("if", "cond", "while", "for") and nd.get("c"):
                        cs = nd["c"][:-1]
                        for cc in cs:
                            for z in g.subtree(cc):
                                zn = g.N[z]
                                if zn["k"] == "call" and zn.get("d") is not None and P.targets(g, z) and \
                                        not (zn.get("m") and c23.var_of(g, zn["c"][0]) in fields) and \
                                        not zn["d"].nx and any(t.q.startswith("sequant::") for t in P.targets(g, z)):
                                    if n not in g.subtree(cc):
                                        out.append((g, z, "condition", "whether the setting is restored depends on more than what was changed"))
            # copies
            if g.fk == "dtor":
                for m in c.methods:
                    if m.get("ck") in ("copy",) and not m.get("del") and (m.get("imp") or m.get("df") or True) and m["n"] != "operator=":
                        out.append((g, None, "copy", "objects of %s can be copied: the setting is restored more than once, or too early" % memo.strip(c.q)))
                    if m.get("ck") in ("move",) and not m.get("del") and (m.get("df") or m.get("imp")):
                        out.append((g, None, "move", "moving %s leaves the source armed" % memo.strip(c.q)))
                for fd in c.fields:
                    t = fd["t"]
                    if t.ref or t.ptr or "reference_wrapper" in t.s:
                        out.append((g, None, "alias", "member %s refers to the setting instead of holding its previous value" % fd["n"]))
                    ids = [x for x in g.walk() if Mo.changes(g, x)]
                    if not ids and not g.b:
                        pass
            # arrays of flags: every element is consulted, with the matching key
            for fd in c.fields:
                t = fd["t"]
                m = __import__("re").search(r"array<bool,\s*(\d+)", t.s) or __import__("re").search(r"bool\[(\d+)\]", t.s)
                if not m:
                    continue
                N = int(m.group(1))
                used, dyn = set(), False
                for x in g.walk():
                    ix = subscript(g, x)
                    if ix is None:
                        continue
                    base, i = ix
                    if c23.var_of(g, base) is fd.get("d") or g.N[memo.unwrap(g, base)].get("d") is fd.get("d"):
                        i = memo.unwrap(g, i)
                        if g.N[i]["k"] == "int":
                            used.add(int(g.N[i]["v"]))
                        else:
                            dyn = True
                        # key used in the guarded restore
                        if g.N[i]["k"] == "int":
                            for a in g.ancestors(x):
                                if g.N[a]["k"] == "if":
                                    for y in g.subtree(g.N[a]["c"][-1]):
                                        iy = subscript(g, y)
                                        if iy is not None and g.N[memo.unwrap(g, iy[1])]["k"] == "int" and \
                                                int(g.N[memo.unwrap(g, iy[1])]["v"]) != int(g.N[i]["v"]):
                                            out.append((g, y, "key", "element %s of the flags decides about another entry" % g.N[i]["v"]))
                                    break
                rng = any(g.N[x]["k"] == "rfor" for x in g.walk())
                if not dyn and not rng and used and used != set(range(N)):
                    out.append((g, None, "partial", "only some of the %d changed entries are restored" % N))
                # the flags are set from the outcome of the change only
                for h in P.fns.values():
                    for x in h.walk():
                        nd = h.N[x]
                        if nd["k"] != "asg" or len(nd["c"]) != 2:
                            continue
                        hit = any(h.N[z]["k"] == "mem" and h.N[z].get("d") is fd.get("d") for z in h.subtree(nd["c"][0]))
                        v = c23.var_of(h, nd["c"][0])
                        if not hit and v is not None and v.k == "var" and v.t is not None and v.t.ref:
                            for y in h.walk():
                                if h.N[y]["k"] == "var" and h.N[y]["d"] is v:
                                    hit = any(h.N[z]["k"] == "mem" and h.N[z].get("d") is fd.get("d") for z in h.subtree(y))
                        if not hit:
                            continue
                        cnt["flags of what was changed"] += 1
                        r = memo.unwrap(h, nd["c"][1])
                        rn = h.N[r]
                        src = origin(h, r)
                        if src is None:
                            continue
                        sn = h.N[src]
                        if sn["k"] == "bool" and str(sn.get("v")).lower() in ("1", "true"):
                            # under a condition that the change succeeded?
                            if not any(h.N[a]["k"] == "if" and any(Mo.changes(h, z) for z in h.subtree(h.N[a]["c"][0])) for a in h.ancestors(x)):
                                out.append((h, x, "flag", "marked as changed whether or not it was: the restore undoes what the caller had set"))
                        elif sn["k"] == "un" and sn.get("o") == "!":
                            if any(Mo.changes(h, z) for z in h.subtree(src)):
                                out.append((h, x, "flag", "marked as changed exactly when it was not"))


def origin(h, r):
    """follow a local bool variable to its initialiser"""
    for _ in range(5):
        nd = h.N[r]
        if nd["k"] == "ref" and nd.get("d") is not None and nd["d"].k == "var":
            for y in h.walk():
                if h.N[y]["k"] == "var" and h.N[y]["d"] is nd["d"] and h.N[y].get("c"):
                    r = memo.unwrap(h, h.N[y]["c"][0])
                    break
            else:
                return None
        else:
            return r
    return r


def subscript(g, x):
    nd = g.N[x]
    if nd["k"] == "idx" and len(nd["c"]) == 2:
        return nd["c"]
    if nd["k"] == "call" and nd.get("d") is not None and nd["d"].n in ("operator[]", "at") and len(nd["c"]) == 2:
        return nd["c"]
    return None


def check_creators(Mo, out, cnt):
    """functions that change a setting and return the object that restores it"""
    P = Mo.P
    for f in P.fns.values():
        if f.dep if hasattr(f, "dep") else False:
            continue
        t = f.t
        if t is None or t.ref or t.ptr or f.lam:
            continue
        w, how = Mo.restores(t)
        if not w or not any(h.fk == "dtor" for h in how):
            continue
        raw = []
        for n in f.walk():
            c = Mo.changes(f, n)
            if c:
                tt = f.N[n].get("t")
                if tt is not None and Mo.restores(tt)[0]:
                    # must be what is returned
                    if not any(f.N[a]["k"] == "ret" for a in f.ancestors(n)) and not any(
                            f.N[a]["k"] == "var" and returned_var(f, f.N[a]["d"]) for a in f.ancestors(n)):
                        out.append((f, n, "discarded", "the restoring object is destroyed before this function returns"))
                    cnt["creators of restoring objects"] += 1
                    continue
                raw.append(n)
        if not raw:
            continue
        cnt["creators of restoring objects"] += 1
        saved = {}
        for n in f.walk():
            nd = f.N[n]
            if nd["k"] == "var" and nd.get("c") and any(f.N[z]["k"] == "call" for z in f.subtree(nd["c"][0])):
                saved[nd["d"]] = n

        def transfer(e, st, report):
            have, changed = st
            if isinstance(e, list):
                return st
            nd = f.N[e]
            if nd["k"] == "var" and nd["d"] in saved:
                if not changed:
                    tv = nd["d"].t
                    if tv is not None and not (tv.ref or tv.ptr):
                        have = have | {nd["d"]}
                if Mo.restores(nd["d"].t)[0]:
                    # a restoring object holding the saved value
                    pass
            if nd["k"] == "var" and nd.get("c") and Mo.restores(nd["d"].t)[0] and not changed and not empty_init(f, e):
                have = have | {nd["d"]}
            if e in raw:
                changed = True
            if nd["k"] == "ret" and report and changed:
                vs = {f.N[z].get("d") for z in f.subtree(e) if f.N[z]["k"] == "ref"}
                if not (vs & have):
                    out.append((f, e, "creator", "the value handed to the restoring object is not a copy taken before the change"))
            return have, changed
        inn = flow.solve(f, (frozenset(), False), transfer, lambda b, k, s: s, lambda x, y: (x[0] & y[0], x[1] or y[1]))
        flow.replay(f, inn, transfer)


def returned_var(f, v):
    return any(f.N[n]["k"] == "ret" and any(f.N[z].get("d") is v for z in f.subtree(n) if f.N[z]["k"] == "ref") for n in f.walk())


# ------------------------------------------------------------- tags
def thrown(f, b):
    return any(isinstance(e, int) and f.N[e]["k"] == "throw" for e in b["e"])


class Tags:
    def __init__(self, Mo):
        self.Mo, self.P = Mo, Mo.P
        self.sum = {}
        self.lent = {}
        P = self.P
        prim = {}
        for f in P.fns.values():
            if memo.strip(f.c or "") == "sequant::Taggable":
                if f.n == "assign":
                    prim[f.u] = "dirty"
                elif f.n == "reset":
                    prim[f.u] = "clean"
        self.prim = prim
        # functions that can reach a primitive
        reach = set(prim)
        E = Mo.E
        st = list(prim)
        callers = {}
        self.calls = {}
        for f in P.fns.values():
            cs = {}
            for n in f.walk():
                nd = f.N[n]
                if nd["k"] in ("call", "ctor") or nd["k"] == "lambda":
                    ts = P.targets(f, n) if nd["k"] != "lambda" else P.lambdas_of(nd)
                    if ts:
                        cs[n] = ts
                        for t in ts:
                            callers.setdefault(t.u, set()).add(f.u)
            self.calls[f.u] = cs
        while st:
            u = st.pop()
            for c in callers.get(u, ()):
                if c not in reach:
                    reach.add(c)
                    st.append(c)
        self.callers = callers
        self.todo = [u for u in reach if u in P.fns and u not in prim]
        for u in prim:
            self.sum[u] = (True, False) if prim[u] == "dirty" else (False, True)
        for u in self.todo:
            self.sum[u] = (False, False)
        # what is set is a least fixed point for given clearing effects; those are refined in between
        for phase in range(3):
            for u in self.todo:
                self.sum[u] = (False, self.sum[u][1])
            changed, rounds = True, 0
            while changed and rounds < 12:
                changed = False
                rounds += 1
                for u in self.todo:
                    new = (self.summary(P.fns[u])[0], self.sum[u][1])
                    if new != self.sum[u]:
                        self.sum[u] = new
                        changed = True
            changed, rounds = True, 0
            while changed and rounds < 12:
                changed = False
                rounds += 1
                for u in self.todo:
                    new = (self.sum[u][0], self.summary(P.fns[u])[1])
                    if new != self.sum[u]:
                        self.sum[u] = new
                        changed = True

    def lend(self, g):
        if g.u not in self.lent:
            # works on the caller's object, or hands out a new one
            self.lent[g.u] = g.u in self.prim or lends(self.Mo, g) or self.Mo.exprish(g.t)
        return self.lent[g.u]

    def outer(self, u):
        f = self.P.fns.get(u)
        return self.Mo.root(f).u if f is not None else u

    def effect(self, f, n):
        """(maydirty, mustclean) of executing node n"""
        ts = self.calls[f.u].get(n)
        if not ts:
            return None
        es = [(self.sum[t.u][0] and self.lend(t), self.sum[t.u][1]) for t in ts if t.u in self.sum]
        if f.N[n]["k"] == "lambda":
            # a lambda handed to an algorithm runs there
            return (any(e[0] for e in es), all(e[1] for e in es)) if es else None
        if not es:
            return None
        live = [t for t in ts if t.u in self.sum]
        return (any(e[0] for e in es), all(self.sum.get(t.u, (0, 0))[1] for t in live) if live else False)

    def run(self, f, start):
        cl = self.calls[f.u]
        lam_in_calls = set()
        cleaning_loops = {}
        for n in f.walk():
            if f.N[n]["k"] in ("for", "rfor", "while"):
                sub = set(f.subtree(n))
                es = [(x, self.effect(f, x)) for x in sub if x in cl]
                if any(e and e[1] for x, e in es) and not any(e and e[0] and not e[1] for x, e in es):
                    cleaning_loops[n] = True

        def transfer(e, st, report):
            if isinstance(e, list):
                return st
            ef = self.effect(f, e)
            if ef is None:
                return st
            d, c = ef
            if c:
                return False
            return st or d

        def edge(b, k, st):
            if thrown(f, b):
                return None
            t = b.get("t")
            if t is not None and t >= 0 and t in cleaning_loops and len(b["s"]) == 2 and k == 1:
                return False
            a = flow.atoms(f, b)
            if a is not None:
                c, neg = a
                # if (x.transform(...)) ...: nothing was tagged where it says so
                if f.N[c]["k"] == "call" and c in cl:
                    ef = self.effect(f, c)
                    if ef and ef[0] and not ef[1] and f.N[c].get("t") is not None and f.N[c]["t"].boolean and ((k == 0) == neg):
                        return False if not start else st
            return st

        inn = flow.solve(f, start, transfer, edge, lambda a, b: a or b)
        return inn.get(f.g["ex"])

    def summary(self, f):
        a = self.run(f, False)
        b = self.run(f, True)
        clears = any((self.effect(f, n) or (0, 0))[1] for n in self.calls[f.u])
        sets = any((self.effect(f, n) or (0, 0))[0] for n in self.calls[f.u])
        # a helper that only clears (where there is something to clear) leaves nothing set
        return (bool(a), clears and (b is False or not sets))


def lends(Mo, f):
    """works on an object of its caller: the caller clears the tags"""
    for g in scope_chain(Mo, f):
        if g.c and memo.strip(g.c) in Mo.exprs | {"sequant::Index", "sequant::Taggable", "sequant::AbstractTensor"} and not g.st:
            return True
        if g.lam:
            return True
        for p in g.p:
            t = p.get("d").t if p.get("d") is not None else p.get("t")
            if t is not None and (t.ref and not t.const or t.rref or t.ptr) and not t.s.startswith("const "):
                return True
    return False


def cleared(T, left, u, seen):
    """does some function further up take the tagged result and clear it?"""
    if u not in left:
        return True
    if u in seen:
        return False
    seen.add(u)
    return any(cleared(T, left, T.outer(c), seen) for c in T.callers.get(u, ()))


def check_tags(T, cnt):
    P = T.P
    for u in T.todo:
        f = P.fns[u]
        d, c = T.sum[u]
        sets = [n for n in T.calls[u] if (T.effect(f, n) or (0, 0))[0]]
        clears = [n for n in T.calls[u] if (T.effect(f, n) or (0, 0))[1]]
        if sets:
            cnt["functions that tag indices"] += 1
        if clears:
            cnt["functions that clear tags"] += 1
        yield f, d, c, sets, clears


def analyse(P):
    E = effects.Eff(P)
    Mo = Model(P, E)
    out = []
    from collections import Counter
    cnt = Counter()
    cnt["settings"] = len(Mo.setvars)
    cnt["setters"] = len(Mo.setters)
    undo = set()        # lambdas run by a guard
    for f in P.fns.values():
        if f.g and Mo.computing(Mo.root(f)):
            for v, (w, how, n) in guard_vars(Mo, f).items():
                undo |= {h.u for h in how}
                for x in f.subtree(n):
                    if f.N[x]["k"] == "lambda":
                        undo |= {h.u for h in P.lambdas_of(f.N[x])}
                    elif f.N[x]["k"] == "ref" and f.N[x].get("d") is not None and f.N[x]["d"].t is not None:
                        # a lambda kept in a variable
                        for y in f.walk():
                            if f.N[y]["k"] == "var" and f.N[y]["d"] is f.N[x]["d"] and f.N[y].get("c"):
                                z = memo.unwrap(f, f.N[y]["c"][0])
                                if f.N[z]["k"] == "lambda":
                                    undo |= {h.u for h in P.lambdas_of(f.N[z])}
    for f in P.fns.values():
        if f.u in undo:
            continue
        if not f.g or not Mo.computing(Mo.root(f)) and not f.lam:
            continue
        if f.u in Mo.setters or f.lam and Mo.root(f).u in Mo.setters:
            continue
        if f.lam and not Mo.computing(Mo.root(f)):
            continue
        if f.fk == "dtor":
            continue
        check_setting(Mo, f, out, cnt)
    check_classes(Mo, out, cnt)
    check_creators(Mo, out, cnt)
    left = {}
    T = Tags(Mo)
    for f, d, c, sets, clears in check_tags(T, cnt):
        if d and sets and not lends(Mo, f):
            left[f.u] = (f, sets[0])
    # a new object may be handed out with its tags set as long as whoever asked for it clears them
    for u, (f, n) in left.items():
        others = {T.outer(c) for c in T.callers.get(u, ())} - {u}
        if not any(c not in left for c in others) and not (others & set(left) and Mo.exprish(f.t) and any(
                cleared(T, left, c, set()) for c in others)):
            out.append((f, n, "tags", "tags set here are not cleared on every normal exit"))
    cnt["functions handing out tagged results"] = len(left)
    return Mo, out, cnt


def run(pid):
    rep = Report(pid, RULE)
    S = selftest.program("restore")
    _, found, _ = analyse(S)
    hit = set()
    for f, n, k, t in found:
        g = f
        while g is not None:
            for part in memo.strip(g.q).replace("(", "::").replace("~", "").split("::"):
                if part.lower().startswith(("bad", "good")):
                    hit.add(part)
            g = S.fns.get(g.par) if g.par else None
    names = {memo.strip(f.q).split("::")[-1] for f in S.fns.values()}
    want = {n for n in names if n.startswith("bad_")}
    good = {h for h in hit if h.lower().startswith("good")}
    rep.selftest("planted defects are found: " + ", ".join(sorted(want)), len(want) > 7 and want <= hit or print("missed", want - hit))
    rep.selftest("correct variants are quiet", not good or print("noise", good, [x[2:] for x in found]))
    P = facts.load()
    Mo, found, cnt = analyse(P)
    for k, v in cnt.items():
        rep.count(k, v)
    rep.floor("settings", 5)
    rep.floor("setters", 15)
    rep.floor("functions that tag indices", 10)
    rep.floor("functions that clear tags", 10)
    for v in sorted({v.n for v in Mo.setvars}):
        rep.sample("setting: " + v)
    for f, n, k, t in found:
        rep.find("%s|%s" % (memo.strip(f.q), k), f.loc(n) if n is not None else "%s:%s" % (f.f, f.l), "%s: %s" % (memo.strip(f.q), t))
    return rep.finish()
