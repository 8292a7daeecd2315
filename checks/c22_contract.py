"""C22: every concrete kind of expression implements the whole contract."""
from checks import c04_copies as c04
from sqlib import effects, facts, memo, selftest
from sqlib.extract import Unanalysable
from sqlib.report import Report

TECHNIQUE = ("class-hierarchy analysis: effective overrider of every contract member per concrete kind; symbolic "
             "evaluation of type identity, clone result kind, sub-expression range and of the type guard on every call of "
             "the comparison hooks")
NOTE = ("A kind with no state of its own may share identity, equality and hash with the kind it refines (products with "
        "declared commutativity). A kind whose hash is the documented constant default is allowed. Text output is not "
        "part of the contract.")
RULE = ("For every class derived from Expr that can be created: the effective type_id yields the identity of that very "
        "class; equality and adjoint are not the failing defaults; clone creates an object of that very class; equality and "
        "ordering hooks reinterpret their argument as that class only and are called only where both type ids were found "
        "equal; the hash is its own or covers a state that the kind extends; the four sub-expression accessors of a kind "
        "holding expressions delimit exactly its own container. Type ids set by hand are pairwise distinct.")

BASE = "sequant::Expr"
HOOKS = ("static_equal", "static_less_than")


def sig(c):
    return c.ty.s if c.ty is not None else c.q


class Model:
    def __init__(self, P, E, base=BASE):
        self.P, self.E, self.base = P, E, base
        self.M = c04.Model(P, E)
        self.byname = {}
        for c in P.clss:
            if c.dep or c.lam:
                continue
            self.byname.setdefault(sig(c), c)
            self.byname.setdefault(c.q, c)
        self.strip = {}
        for c in P.clss:
            if not c.dep and not c.lam:
                self.strip.setdefault(memo.strip(sig(c)), c)
        self.usr = {}

    def bases(self, c):
        for b, t in c.bases:
            for k in ([t.s, t.r] if t is not None else []) + [b, memo.strip(b)]:
                z = self.byname.get(k) or self.strip.get(memo.strip(k)) if k else None
                if z is not None:
                    yield z
                    break

    def chain(self, c):
        """c and its bases, nearest first"""
        out, work = [], [c]
        while work:
            x = work.pop(0)
            if x in out:
                continue
            out.append(x)
            work += list(self.bases(x))
        return out

    def kinds(self):
        out, seen = [], set()
        for c in self.P.clss:
            if c.dep or c.lam or c.abs:
                continue
            k = sig(c)
            if k in seen or c.q == self.base:
                continue
            if self.base in [z.q for z in self.chain(c)]:
                seen.add(k)
                # a class without public constructor is not a kind of its own
                ctors = [m for m in c.methods if m.get("ck") == "ctor"]
                if ctors and all(m.get("acc") not in (None, 0) for m in ctors):
                    continue
                out.append(c)
        return out

    def find(self, c, name, const=None, n=None):
        """(owner class, [functions]) of the effective overrider"""
        for z in self.chain(c):
            own = [m for m in z.methods if m["n"] == name]
            if not own:
                continue
            q = memo.strip(sig(z)) + "::" + name
            fs = [f for f in self.P.byname().get(q, ()) if not f.lam]
            if const is not None:
                fs = [f for f in fs if bool(f.co) == const]
            return z, fs
        return None, []


def usr_of(f):
    """the USR of the class a member function belongs to"""
    u = f.u
    i = u.rfind("@F@")
    return u[2:i] if i > 0 else None


def produced(X, f, n, seen):
    """classes of the objects that expression n may designate; None in it: undecided"""
    out = set()
    n = memo.unwrap(f, n)
    if n is None or n < 0 or (f.u, n) in seen:
        return out
    seen.add((f.u, n))
    nd = f.N[n]
    k = nd["k"]
    if k == "cond":
        return produced(X, f, nd["c"][1], seen) | produced(X, f, nd["c"][2], seen)
    if k == "ref" and nd["d"] is not None and nd["d"].k == "var":
        for s in X.M.defs(f).get(nd["d"], ()):
            u = memo.unwrap(f, s)
            t = f.N[u].get("t") if u is not None and u >= 0 else None
            if t is None or t.boolean or t.integer or t.r and "allocator" in t.r:
                continue
            p = produced(X, f, s, seen)
            out |= {z for z in p if z is not None}
        return out or {None}
    if k == "call" and nd.get("d") is not None:
        d = nd["d"]
        if d.n in ("move", "forward", "static_pointer_cast", "dynamic_pointer_cast", "as_shared_ptr") and nd["c"]:
            return produced(X, f, nd["c"][-1], seen)
        m = c04.made(X.M, f, n)
        if m is not None and m[0]:
            return {memo.strip(m[0])}
        if d.n == "clone" and nd["c"] and f.N[memo.unwrap(f, nd["c"][0])]["k"] != "this":
            return {"a clone of something else"}
        for g in X.P.targets(f, nd):
            if g.c and f.c and memo.strip(g.c) == memo.strip(f.c) and g.n != f.n:
                for x in g.walk():
                    if g.N[x]["k"] == "ret" and g.N[x].get("c"):
                        out |= produced(X, g, g.N[x]["c"][0], seen)
        return out or {None}
    m = c04.made(X.M, f, n)
    if m is not None and m[0]:
        T = m[0]
        vals = [z for z in m[1] if z >= 0]
        c = X.byname.get(T) or X.strip.get(memo.strip(T))
        if c is not None and X.base in [z.q for z in X.chain(c)]:
            return {memo.strip(T)}
        if len(vals) >= 1:          # a handle around it
            return produced(X, f, vals[0], seen)
    return {None}


def linear(X, f, n, depth=0):
    """(member, constant, multiples of size) of a pointer or iterator, ('', a, b) of a number"""
    n = memo.unwrap(f, n)
    if n is None or n < 0 or depth > 30:
        return None
    nd = f.N[n]
    k = nd["k"]
    rec = lambda z: linear(X, f, z, depth + 1)
    if k == "int":
        return ("", int(nd["v"]), 0)
    if k == "mem" and nd["d"] is not None and nd["d"].k == "field":
        return ("@" + nd["d"].n, 0, 0)
    if k == "call" and nd.get("d") is not None and nd["d"].n == "as_const" and nd["c"]:
        return rec(nd["c"][-1])
    if k == "call" and nd.get("d") is not None:
        nm = nd["d"].n
        cs = [c for c in nd["c"] if c >= 0]
        if nm in ("data", "begin", "cbegin", "end", "cend", "size", "ssize", "to_address", "next", "advance",
                  "operator[]", "front") and cs:
            a = rec(cs[0])
            if a is None:
                return None
            if a[0].startswith("@"):
                m = a[0][1:]
                if nm in ("data", "begin", "cbegin", "front"):
                    return (m, 0, 0)
                if nm in ("end", "cend"):
                    return (m, 0, 1)
                if nm in ("size", "ssize"):
                    return ("", 0, 1, m)
                if nm == "operator[]" and len(cs) == 2:
                    b = rec(cs[1])
                    return (m, b[1], b[2]) if b is not None and b[0] == "" else None
                return None
            if nm == "to_address":
                return a
            if nm == "next":
                b = rec(cs[1]) if len(cs) > 1 else ("", 1, 0)
                return (a[0], a[1] + b[1], a[2] + b[2]) if b is not None and b[0] == "" else None
            return None
        if nd.get("o") in ("+", "-") and len(cs) == 2:
            return comb(rec(cs[0]), rec(cs[1]), nd["o"])
        # an accessor of the object itself
        gs = X.P.targets(f, nd)
        if len(gs) == 1 and gs[0].c and not [c for c in cs if f.N[c]["k"] not in ("this", "un")]:
            g = gs[0]
            rs = [g.N[x]["c"][0] for x in g.walk() if g.N[x]["k"] == "ret" and g.N[x].get("c")]
            if len(rs) == 1:
                return linear(X, g, rs[0], depth + 1)
        return None
    if k == "bin" and nd["o"] in ("+", "-"):
        return comb(rec(nd["c"][0]), rec(nd["c"][1]), nd["o"])
    if k == "idx":
        a, b = rec(nd["c"][0]), rec(nd["c"][1])
        if a is None or b is None or b[0] != "":
            return None
        return (a[0].lstrip("@"), a[1] + b[1], a[2] + b[2])
    if k == "un" and nd["o"] in ("&", "*"):
        return rec(nd["c"][0])
    if k == "ref" and nd["d"] is not None and nd["d"].k == "var":
        s = X.M.defs(f).get(nd["d"], ())
        return rec(s[0]) if len(s) == 1 else None
    if k in ("ctor", "ilist", "cast") and nd.get("c"):
        cs = [c for c in nd["c"] if c >= 0]
        return rec(cs[0]) if len(cs) == 1 else None
    return None


def comb(a, b, o):
    if a is None or b is None:
        return None
    s = 1 if o == "+" else -1
    if b[0] == "":
        r = (a[0].lstrip("@"), a[1] + s * b[1], a[2] + s * b[2])
    elif a[0] == "" and s == 1:
        r = (b[0].lstrip("@"), a[1] + b[1], a[2] + b[2])
    else:
        return None
    return r


def holders(X, c):
    """members of c itself that contain expressions: (name, many)"""
    for fd in c.fields:
        t = fd["t"]
        if t is None or fd.get("mu"):
            continue
        if any(a is not None and a.r == "sequant::ExprPtr" for a in t.a) and t.r not in (
                "std::optional", "std::function") or t.r == "sequant::ExprPtrVector":
            yield fd["n"], True


def typetest(f, n, pol=True):
    """+1: true edge of n implies equal type ids, -1: false edge does, 0: neither"""
    nd = f.N[n]
    if nd["k"] == "cast" and nd.get("o") == "Dynamic":
        return 1                # to a class that accepts only its own kind
    n = memo.unwrap(f, n)
    nd = f.N[n]
    if nd["k"] == "un" and nd["o"] == "!":
        return -typetest(f, nd["c"][0])
    if nd["k"] in ("bin", "call", "rew") and nd.get("o") in ("==", "!="):
        cs = [memo.unwrap(f, z) for z in nd["c"][-2:]]
        ok = len(cs) == 2 and all(f.N[z]["k"] == "call" and f.N[z].get("d") is not None and f.N[z]["d"].n == "type_id"
                                  for z in cs)
        if ok:
            return 1 if nd["o"] == "==" else -1
        if len(cs) == 2 and any(f.N[z]["k"] == "null" for z in cs):
            t = [typetest(f, z) for z in cs if f.N[z]["k"] != "null"]
            return (-t[0] if nd["o"] == "==" else t[0]) if t else 0
    if nd["k"] == "call" and nd.get("d") is not None and nd["d"].n == "is":
        return 1
    if nd["k"] == "ref" and nd["d"] is not None and nd["d"].k == "var":
        for z in f.N:
            if z["k"] == "var" and z["d"] is nd["d"] and z.get("c") and z["c"][0] >= 0:
                return typetest(f, z["c"][0])
    return 0


def guarded(f, x):
    """is node x only reachable over an edge establishing equal type ids?"""
    # inside one expression: short circuit and conditional operators
    p, q = x, f.parent(x)
    while q is not None:
        nd = f.N[q]
        if nd["k"] == "bin" and nd["o"] in ("&&", "||") and nd["c"][1] == p:
            t = typetest(f, nd["c"][0])
            if t == (1 if nd["o"] == "&&" else -1):
                return True
        if nd["k"] == "cond" and p in nd["c"][1:]:
            t = typetest(f, nd["c"][0])
            if t == 1 and p == nd["c"][1] or t == -1 and p == nd["c"][2]:
                return True
        p, q = q, f.parent(q)
    bl = {b["i"]: b for b in f.g["bl"]}
    sub = None
    for b in f.g["bl"]:
        if x in b["e"]:
            sub = b["i"]
    if sub is None:
        for b in f.g["bl"]:
            for e in b["e"]:
                if x in set(f.subtree(e)):
                    sub = b["i"]
    if sub is None:
        return None
    seen, work = set(), [f.g["en"]]
    while work:
        i = work.pop()
        if i in seen or i not in bl:
            continue
        seen.add(i)
        b = bl[i]
        tc = b.get("tc")
        t = typetest(f, tc) if tc is not None and tc >= 0 and len(b["s"]) == 2 else 0
        for k, s in enumerate(b["s"]):
            if s is None:
                continue
            if t == 1 and k == 0 or t == -1 and k == 1:
                continue
            work.append(s)
    return sub not in seen


def analyse(P, E, base=BASE, rep=None):
    X = Model(P, E, base)
    out = {}
    notes = []
    B = X.strip.get(base)
    if B is None:
        raise Unanalysable("C22: no class %s" % base)

    def cnt(w, n=1):
        if rep is not None:
            rep.count(w, n)

    for c in X.kinds():
        k = memo.strip(sig(c))
        name = k.split("sequant::", 1)[-1]
        cnt("kinds")
        stateless = not [fd for fd in c.fields if not fd.get("mu") and fd["n"]]
        ident = None
        # -- identity
        z, fs = X.find(c, "type_id")
        if z is None or z is B:
            out[k + "|type_id"] = ("%s:%s" % (c.f, c.l), "%s does not define its type identity" % name)
        else:
            ident = z
            if z is not c and not stateless:
                out[k + "|type_id"] = ("%s:%s" % (c.f, c.l), "%s inherits the type identity of %s although it adds state" %
                                       (name, memo.strip(sig(z))))
            for f in fs:
                cnt("identities")
                ok = False
                for x in f.walk():
                    nd = f.N[x]
                    if nd["k"] == "call" and nd.get("d") is not None and nd["d"].n in ("get_type_id", "type_id_accessor"):
                        u = nd["d"].u or ""
                        ok = ok or ("<#$%s>" % usr_of(f)) in u
                if not ok:
                    out[k + "|type_id"] = (f.loc(), "type_id of %s yields the identity of another class" % name)
        # -- equality
        z, fs = X.find(c, "static_equal")
        if z is None or z is B:
            out[k + "|equal"] = ("%s:%s" % (c.f, c.l), "%s does not define equality: comparing two of them aborts" % name)
        elif ident is not None and z is not ident and z not in X.chain(c)[:X.chain(c).index(ident) + 1]:
            out[k + "|equal"] = ("%s:%s" % (c.f, c.l), "%s is compared by the equality of its base %s" % (
                name, memo.strip(sig(z))))
        for h in HOOKS:
            z, fs = X.find(c, h)
            for f in fs if z is not None and z is not B else ():
                cnt("comparison hooks")
                for x in f.walk():
                    nd = f.N[x]
                    T = None
                    if nd["k"] == "cast" and nd.get("t") is not None:
                        T = nd["t"].r
                    elif nd["k"] == "call" and nd.get("d") is not None and nd["d"].n == "as" and nd.get("t") is not None:
                        T = nd["t"].r
                    if T is None:
                        continue
                    tc = X.strip.get(memo.strip(T))
                    if tc is None or base not in [y.q for y in X.chain(tc)]:
                        continue
                    a = X.M.AN(f)
                    if not any(p[0] == ("p", 0) for kd, p in a.ev(nd["c"][0])):
                        continue
                    if not any(p == (("p", 0), ()) for kd, p in a.ev(nd["c"][0])):
                        continue
                    if memo.strip(T) not in [memo.strip(sig(y)) for y in X.chain(z)]:
                        out[k + "|cast|" + h] = (f.loc(x), "%s of %s treats its argument as %s" % (h, name, T))
        # -- clone
        z, fs = X.find(c, "clone")
        if z is None or z is B:
            out[k + "|clone"] = ("%s:%s" % (c.f, c.l), "%s cannot be cloned" % name)
        else:
            for f in fs:
                ps = set()
                for x in f.walk():
                    if f.N[x]["k"] == "ret" and f.N[x].get("c"):
                        ps |= produced(X, f, f.N[x]["c"][0], set())
                cnt("clones")
                if rep is not None:
                    rep.sample("clone of %s makes %s" % (name, sorted(str(p) for p in ps)))
                bad = {p for p in ps if p is not None and p != k}
                if bad:
                    out[k + "|clone"] = (f.loc(), "cloning %s yields %s" % (name, ", ".join(sorted(bad))))
                elif None in ps and ps == {None}:
                    notes.append("%s: what clone creates is not decided" % name)
        # -- hash: own, or of a base whose state it covers, or the constant default
        z, fs = X.find(c, "memoizing_hash")
        cnt("hashes")
        if z is not None and z is not B and z is not c and z not in X.chain(c):
            out[k + "|hash"] = ("%s:%s" % (c.f, c.l), "%s has no hash" % name)
        # -- adjoint
        z, fs = X.find(c, "adjoint")
        if z is None or z is B:
            out[k + "|adjoint"] = ("%s:%s" % (c.f, c.l), "%s has no adjoint" % name)
        # -- sub-expressions
        own = [m for y in X.chain(c) for m, many in holders(X, y)]
        cnt("containers of sub-expressions", len(own))
        for nm, size in (("begin_subexpr", 0), ("end_subexpr", 1)):
            for const in (False, True):
                z, fs = X.find(c, nm, const)
                if not own:
                    if z is not None and z is not B:
                        notes.append("%s has %s but no container" % (name, nm))
                    continue
                if z is None or z is B or not fs:
                    out["%s|%s" % (k, nm)] = ("%s:%s" % (c.f, c.l), "%s hides its sub-expressions: no %s%s" % (
                        name, nm, " const" if const else ""))
                    continue
                for f in fs:
                    for x in f.walk():
                        if f.N[x]["k"] != "ret" or not f.N[x].get("c"):
                            continue
                        v = linear(X, f, f.N[x]["c"][0])
                        cnt("range ends")
                        if v is None:
                            notes.append("%s::%s not decided" % (name, nm))
                            continue
                        if v[0] not in own or len(v) > 3 or v[1] != 0 or v[2] != size:
                            out["%s|%s" % (k, nm)] = (f.loc(x), "%s of %s is not the %s of %s" % (
                                nm, name, "end" if size else "beginning", own[0]))
    # -- calls of the hooks
    for f in P.fns.values():
        if f.g is None or not (f.f or "").startswith("SeQuant"):
            continue
        for x in f.walk():
            nd = f.N[x]
            if nd["k"] != "call" or nd.get("d") is None or nd["d"].n not in HOOKS:
                continue
            if f.n == nd["d"].n:
                continue            # a hook delegating to its base
            cnt("calls of comparison hooks")
            g = guarded(f, x)
            if g is False:
                out["%s|unguarded|%s" % (memo.strip(f.q), nd["d"].n)] = (
                    f.loc(x), "%s calls %s without having found the two type ids equal" % (f.q, nd["d"].n))
        # -- ids set by hand
        ids = {}
        env = {}
        if any(f.N[x]["k"] == "call" and f.N[x].get("d") is not None and f.N[x]["d"].n == "set_type_id"
               for x in f.walk()):
            for x in f.walk():
                nd = f.N[x]
                if nd["k"] == "un" and "set_type_id" not in [f.N[y]["d"].n for y in f.ancestors(x)
                                                             if f.N[y]["k"] == "call" and f.N[y].get("d") is not None]:
                    value(f, x, env)
                if nd["k"] == "call" and nd.get("d") is not None and nd["d"].n == "set_type_id":
                    a = nd["c"][-1]
                    v = value(f, a, env)
                    cnt("type ids set by hand")
                    if v is not None:
                        if v in ids:
                            out["%s|ids" % memo.strip(f.q)] = (f.loc(x), "two kinds get the same type id")
                        ids[v] = x
    return out, notes


def value(f, n, env):
    """straight-line value of an integer expression: (base, offset)"""
    n = memo.unwrap(f, n)
    nd = f.N[n]
    if nd["k"] == "int":
        return ("", int(nd["v"]))
    if nd["k"] == "un" and nd["o"] in ("++", "--", "post++", "post--") and f.N[memo.unwrap(f, nd["c"][0])]["k"] == "ref":
        d = f.N[memo.unwrap(f, nd["c"][0])]["d"]
        b, o = env.get(d, (d.n, 0))
        new = (b, o + (1 if "+" in nd["o"] else -1))
        env[d] = new
        post = nd["o"].startswith("post")
        return (b, o) if post else new
    if nd["k"] == "ref" and nd["d"] is not None and nd["d"].k == "var":
        return env.get(nd["d"], (nd["d"].n, 0))
    if nd["k"] == "bin" and nd["o"] in ("+", "-"):
        a, b = value(f, nd["c"][0], env), value(f, nd["c"][1], env)
        if a is not None and b is not None and b[0] == "":
            return (a[0], a[1] + (b[1] if nd["o"] == "+" else -b[1]))
    return None


def run(pid):
    rep = Report(pid, RULE)
    t = selftest.program("contract")
    o, n = analyse(t, effects.Eff(t), "sequant::Base")
    want = {"sequant::NoId|type_id", "sequant::WrongId|type_id", "sequant::NoEq|equal", "sequant::WrongEq|cast|static_equal",
            "sequant::Slices|clone", "sequant::NoAdj|adjoint", "sequant::OffByOne|end_subexpr",
            "sequant::Hides|begin_subexpr", "sequant::Hides|end_subexpr", "sequant::unguarded|unguarded|static_equal",
            "sequant::clash|ids", "sequant::NoClone|clone"}
    for w in sorted(want):
        rep.selftest("finds " + w, w in o)
    rep.selftest("quiet otherwise: %s" % sorted(set(o) - want), not set(o) - want)
    P = facts.load()
    E = effects.Eff(P)
    out, notes = analyse(P, E, BASE, rep)
    for k, (w, txt) in sorted(out.items()):
        rep.find(k, w, txt)
    rep.notes += sorted(set(notes))
    rep.floor("kinds", 14)
    rep.floor("clones", 14)
    rep.floor("identities", 14)
    rep.floor("comparison hooks", 14)
    rep.floor("range ends", 8)
    rep.floor("calls of comparison hooks", 2)
    return rep.finish()
