"""C18: options given by the caller reach every nested step."""
import re
from sqlib import facts, memo, selftest
from sqlib.report import Report

TECHNIQUE = ("interprocedural provenance analysis of option objects: every argument, aggregate member and constructor member of an "
             "option kind (or named like one of its fields) is traced back through locals, lambdas and accessors to the caller's options")
NOTE = ("Provenance is flow-insensitive per function (a local counts as derived when every value it may hold is). A field set to an "
        "explicit enumerator or flag on a copy of the caller's options is a deliberate choice and accepted; resetting it to an empty "
        "value is not. Options of a different kind than the caller's are not required to be passed.")
RULE = ("In every function (with its nested lambdas) that has options of kind K - as a parameter, captured, or as members set from one "
        "by a constructor - every call taking options of K or a kind related to it by inheritance receives the caller's options, a "
        "copy of them, or an object whose every field comes from them or is set explicitly: never the default argument, a freshly "
        "defaulted object, or a copy with a field emptied. A parameter, or field of another option aggregate, that has the name and "
        "type of a field of K receives that field of the caller's options and not another one or a constant. A constructor taking "
        "options stores or uses each of their fields.")

OPT = re.compile(r"Options$")
EMPTY = ("null", "zero")


def bare(t):
    """the class named by a type, without cv/ref"""
    s = t.s
    s = re.sub(r"^const\s+", "", s)
    s = re.sub(r"\s*(&&|&|\*)$", "", s)
    s = re.sub(r"\s*const$", "", s)
    return memo.strip(s)


class Kinds:
    def __init__(self, P):
        self.P = P
        self.f = {}
        self.rel = {}
        base = {}
        for c in P.clss:
            q = memo.strip(c.q)
            if c.lam or c.dep or not OPT.search(q):
                continue
            own = {x["n"]: x["t"] for x in c.fields if "designated_init_only" not in x["t"].s}
            self.f.setdefault(q, {}).update(own)
            base.setdefault(q, set()).update(memo.strip(b[0]) for b in c.bases)
        ch = True
        while ch:
            ch = False
            for q, bs in base.items():
                for b in list(bs):
                    if b in self.f:
                        for n, t in self.f[b].items():
                            if n not in self.f[q]:
                                self.f[q][n] = t
                                ch = True
                    new = base.get(b, set()) - bs
                    if new:
                        bs |= new
                        ch = True
        self.base = base

    def of(self, t):
        if t is None or t.ptr:
            return None
        q = bare(t)
        return q if q in self.f else None

    def related(self, a, b):
        return a == b or b in self.base.get(a, ()) or a in self.base.get(b, ())


def deref(t):
    return re.sub(r"^const\s+|\s*[&*]+$|\s*const$", "", t.s).strip()


class Group:
    """a function together with the lambdas nested in it"""

    def __init__(self, P, K, root):
        self.P, self.K, self.root = P, K, root
        self.fns = []
        self.add(root)
        self.defs = {}          # decl -> [(fn, node)]
        self.ctrl = {}          # decl -> [(fn, condition)]
        self.lamv = {}          # decl -> [fn]
        self.have = {}          # kind -> how
        self.pars = {}          # name -> decl (non-option parameters)
        self.collect()

    def add(self, f):
        if f in self.fns:
            return
        self.fns.append(f)
        for n in f.walk():
            if f.N[n]["k"] == "lambda":
                for g in self.P.lambdas_of(f.N[n]):
                    self.add(g)

    def collect(self):
        for f in self.fns:
            for p in f.p:
                k = self.K.of(p["t"])
                if k:
                    self.have.setdefault(k, set()).add(p["d"])
                elif p["n"]:
                    self.pars.setdefault(p["n"], []).append(p["d"])
            for n in f.walk():
                nd = f.N[n]
                if nd["k"] == "var":
                    for v in [nd["d"]] + [b for b in nd.get("b", ()) if b is not None]:
                        for c in nd.get("c", ()):
                            if c is not None and c >= 0:
                                self.put(v, f, c, n)
                                u = memo.unwrap(f, c)
                                if u is not None and u >= 0 and f.N[u]["k"] == "lambda":
                                    self.lamv.setdefault(v, []).extend(self.P.lambdas_of(f.N[u]))
                elif nd["k"] == "asg" or nd["k"] == "call" and nd.get("o") == "=":
                    v, path = self.target(f, nd["c"][0])
                    if v is not None and not path:
                        self.put(v, f, nd["c"][1], n)
                elif nd["k"] == "rfor" and nd["c"][0] >= 0:
                    for v in [f.N[nd["c"][0]]["d"]] + [b for b in f.N[nd["c"][0]].get("b", ()) if b is not None]:
                        self.put(v, f, nd["c"][1], n)

    def put(self, v, f, c, at):
        self.defs.setdefault(v, []).append((f, c))
        for a in f.ancestors(at):
            if f.N[a]["k"] in ("if", "cond", "switch") and f.N[a]["c"] and f.N[a]["c"][0] is not None and f.N[a]["c"][0] >= 0:
                cs = f.N[a]["c"]
                self.ctrl.setdefault(v, []).append((f, cs[0]))
                if len(cs) > 1 and cs[1] is not None and cs[1] >= 0 and f.N[a]["k"] == "if":
                    self.ctrl[v].append((f, cs[1])) if f.N[cs[1]]["k"] not in ("block",) else None

    def target(self, f, n):
        """(variable, member path) an lvalue expression denotes"""
        path = []
        u = memo.unwrap(f, n)
        while u is not None and u >= 0 and f.N[u]["k"] == "mem" and f.N[u].get("c"):
            path.append(f.N[u]["d"].n if f.N[u].get("d") is not None else "?")
            u = memo.unwrap(f, f.N[u]["c"][0])
        if u is not None and u >= 0 and f.N[u]["k"] == "ref" and f.N[u].get("d") is not None:
            return f.N[u]["d"], path[::-1]
        return None, path[::-1]

    def fieldsets(self, v):
        """[(fn, node, field, rhs)]: assignments to fields of v"""
        out = []
        for f in self.fns:
            for n in f.walk():
                nd = f.N[n]
                if nd["k"] == "asg" or nd["k"] == "call" and nd.get("o") == "=":
                    w, path = self.target(f, nd["c"][0])
                    if w is v and path:
                        out.append((f, n, path[0], nd["c"][1]))
                elif nd["k"] == "call" and nd.get("d") is not None and nd["d"].n in ("reset", "clear") and nd.get("m") \
                        and len(nd["c"]) == 1:
                    w, path = self.target(f, nd["c"][0])
                    if w is v and path:
                        out.append((f, n, path[0], None))
        return out


class Prov:
    """provenance of values inside a group"""

    def __init__(self, P, K, G, members):
        self.P, self.K, self.G, self.members = P, K, G, members
        self.busy = set()

    # tokens: ("o", kind) whole options, ("f", kind, field), ("p", name)
    def tokens(self, f, n, seen=None):
        seen = set() if seen is None else seen
        out = set()
        for x in f.subtree(n):
            nd = f.N[x]
            if nd["k"] == "ref" and nd.get("d") is not None:
                out |= self.ref(f, x, nd["d"], seen)
            elif nd["k"] == "mem" and nd.get("d") is not None:
                out |= self.member(f, x, nd)
            elif nd["k"] == "call" and nd.get("d") is not None and nd["d"].k in ("method", "func") and len(nd["c"]) <= 1:
                for g in self.P.targets(f, x):
                    out |= self.accessor(g)
            elif nd["k"] == "lambda":
                for g in self.P.lambdas_of(nd):
                    if g.u not in seen:
                        seen.add(g.u)
                        for y in g.walk():
                            if g.N[y]["k"] in ("ref", "mem") and g.N[y].get("d") is not None:
                                out |= self.ref(g, y, g.N[y]["d"], seen) if g.N[y]["k"] == "ref" else self.member(g, y, g.N[y])
        return out

    def ref(self, f, x, d, seen):
        k = self.K.of(d.t) if d.t is not None else None
        if k and d.k == "parm":
            fld = self.accessed(f, x)
            return {("f", k, fld)} if fld else {("o", k)}
        out = set()
        if d.k == "parm" and d.n in self.G.pars and d in self.G.pars[d.n]:
            out.add(("p", d.n))
        if d in seen:
            return out
        if d in self.G.defs:
            seen = seen | {d}
            for g, c in self.G.defs[d]:
                t = self.tokens(g, c, set(seen))
                fld = self.accessed(f, x) if k else None
                if fld:
                    t = {("f", z[1], fld) if z[0] == "o" else z for z in t}
                out |= t
            for g, c in self.G.ctrl.get(d, ()):
                out |= self.tokens(g, c, set(seen))
        for g in self.G.lamv.get(d, ()):
            if g.u not in seen:
                s2 = set(seen) | {g.u}
                for y in g.walk():
                    if g.N[y]["k"] == "ref" and g.N[y].get("d") is not None:
                        out |= self.ref(g, y, g.N[y]["d"], s2)
                    elif g.N[y]["k"] == "mem" and g.N[y].get("d") is not None:
                        out |= self.member(g, y, g.N[y])
        return out

    def accessed(self, f, x):
        """field read from the option object referred to by node x"""
        p = f.parent(x)
        while p is not None and f.N[p]["k"] in ("cast",):
            p = f.parent(p)
        if p is not None and f.N[p]["k"] == "mem" and f.N[p].get("d") is not None and f.N[p]["d"].k == "field":
            return f.N[p]["d"].n
        return None

    def member(self, f, x, nd):
        d = nd["d"]
        if d.k != "field":
            return set()
        t = self.members.get(d)
        if t:
            out = set()
            for z in t[1]:
                fld = self.accessed(f, x) if z[0] == "o" else None
                out.add(("f", z[1], fld) if fld else z)
            return out
        return set()

    def accessor(self, g):
        """tokens of what a small function returns from its object's members"""
        if len(g.p) or g in self.busy or len(g.N) > 60:
            return set()
        self.busy.add(g)
        out = set()
        for x in g.walk():
            nd = g.N[x]
            if nd["k"] == "mem" and nd.get("d") is not None:
                out |= self.member(g, x, nd)
            elif nd["k"] == "call" and nd.get("d") is not None and nd["d"].k == "method" and len(nd["c"]) <= 1:
                for h in self.P.targets(g, x):
                    out |= self.accessor(h)
        self.busy.discard(g)
        return out

    # ---- is an option object the caller's? ------------------------------
    def derived(self, f, n, k, seen=()):
        """None: yes (or undecided), else why not"""
        u = memo.unwrap(f, n)
        if u is None or u < 0:
            return "the default argument" if n is not None and n >= 0 and f.N[n]["k"] == "defarg" else None
        nd = f.N[u]
        if nd["k"] == "defarg":
            return "the default argument"
        if nd["k"] == "cond":
            for c in nd["c"][1:]:
                w = self.derived(f, c, k, seen)
                if w:
                    return w
            return None
        if nd["k"] == "ref" and nd.get("d") is not None:
            d = nd["d"]
            if d.k == "parm":
                return None
            if d in seen:
                return None
            ds = self.G.defs.get(d)
            if not ds:
                if d.k == "var" and d not in self.vars():
                    return None           # global or unknown
                ds = []
            whole = False
            why = None
            for g, c in ds:
                w = self.derived(g, c, k, seen + (d,))
                if w:
                    why = why or w
                else:
                    whole = True
            sets = self.G.fieldsets(d)
            if whole and why:
                return why if not self.completed(sets, k) else None
            if whole:
                return self.emptied(sets, k)
            if why is None and not ds:
                why = "a freshly defaulted object"
            if why and self.completed(sets, k):
                return None
            return why
        if nd["k"] == "mem":
            return None
        if nd["k"] in ("ctor", "ilist", "zero"):
            if nd["k"] == "ctor" and len(nd["c"]) == 1:
                kk = self.K.of(f.N[nd["c"][0]].get("t")) if nd["c"][0] >= 0 else None
                if kk:
                    return self.derived(f, nd["c"][0], k, seen)
            if nd["k"] == "ilist":
                if not nd["c"]:
                    return "a freshly defaulted object"
                if len(nd["c"]) == 1 and nd["c"][0] >= 0 and self.K.of(f.N[nd["c"][0]].get("t")):
                    return self.derived(f, nd["c"][0], k, seen)
                toks = set()
                for c in nd["c"]:
                    if c >= 0:
                        toks |= self.tokens(f, c)
                om = []
                for i in nd.get("di", ()):
                    fd = nd["fs"][i] if i < len(nd.get("fs", ())) else None
                    nm = fd.n if fd is not None and not isinstance(fd, int) else None
                    if nm and nm in self.K.f.get(k, ()):
                        om.append(nm)
                if om:
                    return "an object with only some fields set (%s defaulted)" % ", ".join(om)
                for c in nd["c"]:
                    if c >= 0 and self.K.of(f.N[c].get("t")):
                        w = self.derived(f, c, k, seen)
                        if w:
                            return w
                return None
            if self.tokens(f, u):
                return None
            return "a freshly defaulted object"
        if nd["k"] == "call":
            toks = self.tokens(f, u)
            if any(t[0] in ("o", "f") for t in toks):
                # modified copies: f(opts).set(...)
                return None
            d = nd.get("d")
            if d is not None and self.K.of(nd.get("t")):
                gs = self.P.targets(f, u)
                if gs and all(self.pure_default(g) for g in gs):
                    return "the defaults returned by %s()" % d.n
                if d.n in ("move", "forward") and nd["c"]:
                    return self.derived(f, nd["c"][-1], k, seen)
                if nd.get("m") and nd["c"]:
                    w = self.derived(f, nd["c"][0], k, seen)
                    if w:
                        return w
            return None
        return None

    def pure_default(self, g):
        """a function of nothing: no parameters, no object, or one that holds no options"""
        if g.p:
            return False
        return not any(g.N[x]["k"] == "mem" and g.N[x].get("d") is not None and self.member(g, x, g.N[x]) for x in g.walk())

    def vars(self):
        if not hasattr(self, "_vars"):
            self._vars = set()
            for f in self.G.fns:
                for n in f.walk():
                    if f.N[n]["k"] == "var":
                        self._vars.add(f.N[n]["d"])
        return self._vars

    def completed(self, sets, k):
        names = {fld for f, n, fld, r in sets if not self.empty(f, r)}
        return names >= set(self.K.f.get(k, ()))

    def emptied(self, sets, k):
        for f, n, fld, r in sets:
            if fld in self.K.f.get(k, ()) and self.empty(f, r):
                return "a copy with '%s' emptied" % fld
        return None

    def empty(self, f, n):
        if n is None:
            return True
        u = memo.unwrap(f, n)
        if u is None or u < 0:
            return False
        nd = f.N[u]
        if nd["k"] in EMPTY:
            return True
        if nd["k"] == "ref" and nd.get("d") is not None and nd["d"].n in ("nullopt", "nullptr"):
            return True
        if nd["k"] in ("ctor", "ilist"):
            if not [c for c in nd["c"] if c >= 0 and f.N[c]["k"] != "defarg"]:
                return True
            if len(nd["c"]) == 1 and nd["c"][0] >= 0:
                return self.empty(f, nd["c"][0])
        return False


def constant(f, n):
    """an argument that is a literal, an enumerator or an empty value"""
    u = memo.unwrap(f, n)
    if u is None or u < 0:
        return False
    nd = f.N[u]
    if nd["k"] in ("bool", "int", "flt", "str", "null", "zero", "chr"):
        return True
    if nd["k"] == "ref" and nd.get("d") is not None:
        return nd["d"].k == "enumc" or nd["d"].n == "nullopt"
    if nd["k"] in ("ctor", "ilist"):
        cs = [c for c in nd["c"] if c >= 0]
        return all(f.N[c]["k"] == "defarg" or constant(f, c) for c in cs)
    if nd["k"] == "un":
        return constant(f, nd["c"][0])
    return False


def membership(P, K):
    """members that hold (fields of) options given to a constructor: decl -> (class, tokens)"""
    out = {}
    ctors = []
    for f in P.fns.values():
        if f.fk not in ("ctor", "conv") or not f.c or memo.strip(f.c) in K.f or f.imp:
            continue
        if not any(K.of(p["t"]) for p in f.p):
            continue
        ctors.append(f)
        G = Group(P, K, f)
        V = Prov(P, K, G, {})

        def put(d, e):
            t = {z for z in V.tokens(f, e) if z[0] in ("o", "f")}
            if t and d is not None and d.k == "field":
                out.setdefault(d, (memo.strip(f.c), set()))[1].update(t)
        for i in f.inits:
            if i.get("e", -1) is not None and i.get("e", -1) >= 0 and i.get("w"):
                put(i.get("d"), i["e"])
        for n in f.walk():
            nd = f.N[n]
            if nd["k"] == "asg" or nd["k"] == "call" and nd.get("o") == "=":
                u = memo.unwrap(f, nd["c"][0])
                if u is not None and u >= 0 and f.N[u]["k"] == "mem":
                    put(f.N[u].get("d"), nd["c"][1])
    return out, ctors


def recursive(P, G, g):
    return g in G.fns or g is G.root


def compatible(a, b):
    x, y = deref(a), deref(b)
    return x == y or memo.strip(x) == memo.strip(y) or x in y or y in x


def analyse(P, rep=None):
    out, notes = {}, []
    K = Kinds(P)
    cnt = (lambda w, n=1: rep.count(w, n)) if rep else (lambda w, n=1: None)
    cnt("option kinds", len(K.f))
    members, ctors = membership(P, K)
    cnt("members holding options", len(members))
    classes = {}
    for c, t in members.values():
        for z in t:
            classes.setdefault(c, set()).add(z)
    done = set()
    for f in sorted(P.fns.values(), key=lambda f: (f.f, f.l)):
        if f.lam and f.par and f.par in P.fns or f.imp:
            continue
        if f.c and memo.strip(f.c) in K.f:
            continue
        G = Group(P, K, f)
        cl = memo.strip(f.c) if f.c else None
        mine = set(classes.get(cl, ())) if not f.st else set()
        if f.fk in ("ctor", "conv", "copy", "move"):
            mine = set()
        if not G.have and not mine:
            continue
        cnt("functions with options")
        V = Prov(P, K, G, members)
        kinds = set(G.have) | {z[1] for z in mine if z[0] == "o"}
        fields = {}
        for k in G.have:
            for n, t in K.f[k].items():
                fields.setdefault(n, []).append((k, t))
        for z in mine:
            if z[0] == "f":
                fields.setdefault(z[2], []).append((z[1], K.f[z[1]].get(z[2])))
            else:
                for n, t in K.f[z[1]].items():
                    fields.setdefault(n, []).append((z[1], t))
        for g in G.fns:
            for n in g.walk():
                nd = g.N[n]
                if nd["k"] in ("call", "ctor") and nd.get("d") is not None:
                    call(P, K, G, V, g, n, nd, kinds, fields, out, cnt, rep)
                elif nd["k"] == "ilist" and nd.get("fs"):
                    agg(P, K, G, V, g, n, nd, kinds, fields, out, cnt)
    for f in ctors:
        G = Group(P, K, f)
        for p in f.p:
            k = K.of(p["t"])
            if not k:
                continue
            cnt("constructors taking options")
            used, whole = uses(P, K, G, p["d"])
            if whole:
                continue
            for n in sorted(set(K.f[k]) - used):
                out["%s|field %s" % (memo.strip(f.q), n)] = (f.loc(f.b if f.b is not None and f.b >= 0 else 0),
                    "%s: field '%s' of the options is neither stored nor used" % (memo.strip(f.q), n))
    return out, notes


def uses(P, K, G, d):
    used, whole = set(), False

    def node(f, x):
        nonlocal whole
        p = f.parent(x)
        while p is not None and f.N[p]["k"] == "cast":
            p = f.parent(p)
        if p is not None and f.N[p]["k"] == "mem" and f.N[p].get("d") is not None and f.N[p]["d"].k == "field":
            used.add(f.N[p]["d"].n)
        else:
            whole = True
    for f in G.fns:
        for x in range(len(f.N)):
            nd = f.N[x]
            if nd["k"] == "ref" and nd.get("d") is d:
                node(f, x)
    return used, whole


def call(P, K, G, V, f, n, nd, kinds, fields, out, cnt, rep):
    d = nd["d"]
    pt = d.p if isinstance(d.p, (list, tuple)) else []
    off = 1 if nd["k"] == "call" and (d.k in ("method", "conv") and nd.get("m")) else 0
    gs = P.targets(f, n)
    if d.q and memo.strip(d.q).rsplit("::", 1)[0] in K.f:
        return
    g0 = gs[0] if gs else None
    ps = [(p["n"], p["t"]) for p in g0.p] if g0 is not None else list(zip(d.pn or (), pt))
    nparm = len(ps)
    for i in range(off, len(nd["c"])):
        a = nd["c"][i]
        if a is None or a < 0:
            continue
        j = i - off
        t = ps[j][1] if j < nparm else f.N[a].get("t")
        k = K.of(t)
        if k and not (d.q or "").startswith("std::"):
            rel = [x for x in kinds if K.related(x, k)]
            if rel:
                cnt("options passed on")
                if rep:
                    rep.sample("%s -> %s" % (f.loc(n), d.n))
                why = V.derived(f, a, k)
                if why:
                    key = "%s|%s|%s" % (memo.strip(G.root.q), d.n, k.rsplit("::", 1)[-1])
                    out.setdefault(key, (f.loc(n), "%s: %s() is given %s, not the caller's %s" %
                                         (memo.strip(f.q), d.n, why, k.rsplit("::", 1)[-1])))
            continue
        if j >= nparm:
            continue
        nm = ps[j][0]
        if nm in fields and any(ft is not None and compatible(ft, t) for _, ft in fields[nm]):
            if any(recursive(P, G, g) for g in gs):
                continue
            judge(K, V, f, n, a, nm, "argument '%s' of %s()" % (nm, d.n), fields, out, cnt)


def agg(P, K, G, V, f, n, nd, kinds, fields, out, cnt):
    t = nd.get("t")
    k = K.of(t)
    if k is None or any(K.related(x, k) for x in kinds):
        return
    for i, fd in enumerate(nd["fs"]):
        if isinstance(fd, int) or fd is None or i >= len(nd["c"]) or nd["c"][i] < 0:
            continue
        if fd.n in fields and any(ft is not None and fd.t is not None and compatible(ft, fd.t) for _, ft in fields[fd.n]):
            if i in nd.get("di", ()):
                key = "%s|%s.%s" % (memo.strip(f.q), k.rsplit("::", 1)[-1], fd.n)
                out.setdefault(key, (f.loc(n), "%s: field '%s' of %s keeps its default although the caller's options have it" %
                                     (memo.strip(f.q), fd.n, k.rsplit("::", 1)[-1])))
                cnt("fields passed on")
                continue
            judge(K, V, f, n, nd["c"][i], fd.n, "field '%s' of %s" % (fd.n, k.rsplit("::", 1)[-1]), fields, out, cnt)


def judge(K, V, f, n, a, nm, what, fields, out, cnt):
    cnt("fields passed on")
    key = "%s|%s" % (memo.strip(f.q), what)
    ks = {k for k, _ in fields[nm]}
    if f.N[a]["k"] == "defarg":
        out.setdefault(key, (f.loc(n), "%s: %s is left at its default although the caller's options have it" % (memo.strip(f.q), what)))
        return
    t = V.tokens(f, a)
    if any(z == ("p", nm) or z[0] == "o" and z[1] in ks or z[0] == "f" and z[1] in ks and z[2] == nm for z in t):
        return
    other = sorted({z[2] for z in t if z[0] == "f" and z[1] in ks})
    if other:
        out.setdefault(key, (f.loc(n), "%s: %s comes from field '%s' of the caller's options" % (memo.strip(f.q), what, other[0])))
    elif constant(f, a) and not t:
        out.setdefault(key, (f.loc(n), "%s: %s is a constant although the caller's options have it" % (memo.strip(f.q), what)))


def run(pid):
    rep = Report(pid, RULE)
    t, _ = analyse(selftest.program("options"))
    hit = set()
    for k in t:
        m = re.search(r"(bad\d+|BadEngine::\w+|good\d+|GoodEngine)", k)
        hit.add(m.group(1) if m else k)
    want = {"bad%d" % i for i in range(1, 12)} | {"BadEngine::BadEngine", "BadEngine::run"}
    for w in sorted(want):
        rep.selftest("finds " + w, w in hit)
    rep.selftest("quiet otherwise: %s" % sorted(hit - want), not hit - want)
    P = facts.load()
    out, notes = analyse(P, rep)
    for k, (w, txt) in sorted(out.items()):
        rep.find(k, w, txt)
    rep.notes += notes
    rep.floor("option kinds", 15)
    rep.floor("functions with options", 120)
    rep.floor("options passed on", 90)
    rep.floor("fields passed on", 20)
    rep.floor("members holding options", 12)
    rep.floor("constructors taking options", 3)
    return rep.finish()
