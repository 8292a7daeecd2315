"""C13: signs and factors produced by canonicalization are never lost."""
import re
from checks import c04_copies as c04
from checks import c22_contract as c22
from sqlib import effects, facts, flow, memo, selftest
from sqlib.report import Report

TECHNIQUE = ("forward dataflow (affine resource) over every function's CFG: each byproduct/phase obtained is tracked through "
             "locals, bindings, lambdas and helpers until it is folded into something that outlives the function; typestate of "
             "the swap-parity counter")
NOTE = ("What a byproduct is multiplied with is not judged beyond that it reaches the caller's result. A byproduct may be "
        "dropped where the receiver's kind is shown never to yield one (products, sums). Values that leave through an "
        "argument or a member are taken to be accounted for there. Whether evaluation applies the phase of a tree leaf is "
        "recorded as a known finding.")
RULE = ("The scalar returned by every in-place canonicalization (expressions, tensor canonicalizers, tensor networks and every "
        "helper or lambda whose result carries one) and the sign returned by every reordering helper is consumed on every path: "
        "returned, multiplied or stored into something non-local, or passed on; a path may drop it only where it was found "
        "null or one, or cannot exist for the receiver's kind. Nothing overwrites it before. The swap parity is read only "
        "after a reset in the same function with nothing in between that resets it or reorders without counting. Code using "
        "the canonical slot order of a network also uses its phase.")

NET = re.compile(r"^sequant::TensorNetworkV?\d*$")
FACTORY = ("ex", "make_shared")
LOC = "sequant::"
COMPARE = ("==", "!=", "<", ">", "<=", ">=", "<=>", "&&", "||")
SORTS = ("sort", "stable_sort", "partial_sort", "nth_element", "inplace_merge", "iter_swap", "rotate", "reverse",
         "next_permutation", "sort_heap", "shuffle")


class Model:
    def __init__(self, P, E, net=NET, expr="sequant::Expr", canon="sequant::TensorCanonicalizer", ptr="sequant::ExprPtr",
                 ns="sequant::"):
        self.P, self.E, self.expr, self.canon, self.net, self.ptr, self.ns = P, E, expr, canon, net, ptr, ns
        self.X = c22.Model(P, E, base=expr)
        self.M = self.X.M
        self.kindq = {}
        for c in P.clss:
            if c.dep or c.lam:
                continue
            ch = [memo.strip(z.q) for z in self.X.chain(c)]
            if expr in ch:
                self.kindq[memo.strip(c.q)] = "E"
            elif canon in ch:
                self.kindq[memo.strip(c.q)] = "C"
        self.derived = {}         # usr -> True: result carries a byproduct
        self.nulls = {}
        self.info = {}

    # ---- sources -------------------------------------------------------
    def source(self, f, n):
        """'E' (scalar expression), 'N' (sign) or None"""
        nd = f.N[n]
        if nd["k"] != "call" or nd.get("d") is None:
            return None
        d = nd["d"]
        t = nd.get("t")
        if d.k == "method" and t is not None and t.s == self.ptr and d.q and d.u:
            cls = memo.strip(d.q.rsplit("::", 1)[0]) if "::" in d.q else ""
            cls = memo.strip(d.q)
            cls = cls.rsplit("::", 1)[0]
            kd = self.kindq.get(cls)
            if kd == "E" and d.n in ("canonicalize", "rapid_canonicalize"):
                return "E"
            if kd == "C" and d.n == "apply":
                return "E"
            if self.net.match(cls) and "canonicaliz" in d.n:
                return "E"
        if d.n == "ts_swap_counter_is_even":
            return "N"
        for g in self.P.targets(f, nd):
            if g.u in self.derived:
                return self.derived[g.u]
        # a local lambda
        if nd.get("o") == "()" and nd["c"]:
            for g in self.lambda_of(f, nd["c"][0]):
                if g.u in self.derived:
                    return self.derived[g.u]
        return None

    def lambda_of(self, f, n):
        n = memo.unwrap(f, n)
        if n is None or n < 0:
            return []
        nd = f.N[n]
        if nd["k"] == "lambda":
            return self.P.lambdas_of(nd)
        if nd["k"] == "ref" and nd["d"] is not None and nd["d"].k == "var":
            out = []
            for s in self.M.defs(f).get(nd["d"], ()):
                u = memo.unwrap(f, s)
                if u is not None and u >= 0 and f.N[u]["k"] == "lambda":
                    out += self.P.lambdas_of(f.N[u])
            return out
        return []

    # ---- per-function tables ---------------------------------------------
    def locals_of(self, f):
        i = self.info.get(f.u)
        if i is not None:
            return i
        loc, alias = set(), {}
        for p in f.p:
            t = p["t"]
            if p["d"] is not None and t is not None and (not t.ref or t.rref) and not t.ptr:
                loc.add(p["d"])
        stat = set()
        for nd in f.N:
            if nd["k"] == "var" and nd.get("d") is not None:
                d = nd["d"]
                t = nd.get("t")
                if t is not None and t.lref:
                    alias[d] = nd["c"][0] if nd.get("c") else None
                    for b in nd.get("b", ()):
                        if b is not None:
                            alias[b] = alias[d]
                else:
                    loc.add(d)
                    for b in nd.get("b", ()):
                        if b is not None:
                            loc.add(b)
        # loop variables by reference name elements of what is iterated
        for nd in f.N:
            if nd["k"] == "rfor" and nd["c"][0] is not None and nd["c"][0] >= 0:
                v = f.N[nd["c"][0]]
                for b in [v.get("d")] + list(v.get("b", ())):
                    if b is not None and b in alias:
                        alias[b] = nd["c"][1]
        i = (loc, alias)
        self.info[f.u] = i
        return i

    def root(self, f, n, deref=False, depth=0):
        """(local holder or None, reached through a pointer)"""
        n = memo.unwrap(f, n)
        if n is None or n < 0 or depth > 30:
            return None, deref
        nd = f.N[n]
        loc, alias = self.locals_of(f)
        k = nd["k"]
        if k == "ref":
            d = nd["d"]
            if d in alias and alias[d] is not None:
                return self.root(f, alias[d], deref, depth + 1)
            return (d if d in loc else None), deref
        if k == "mem":
            return self.root(f, nd["c"][0], deref or bool(nd.get("ar")), depth + 1) if nd.get("c") else (None, deref)
        if k == "idx":
            return self.root(f, nd["c"][0], deref, depth + 1)
        if k == "un" and nd.get("o") == "*":
            return self.root(f, nd["c"][0], True, depth + 1)
        if k == "call" and nd["c"] and nd.get("d") is not None:
            if nd.get("o") in ("*", "->") and len(nd["c"]) == 1:
                return self.root(f, nd["c"][0], True, depth + 1)
            if nd["d"].n in ("as", "get", "first", "second", "front", "back", "at", "value", "operator[]",
                             "as_shared_ptr", "move", "forward") :
                return self.root(f, nd["c"][0], deref, depth + 1)
        return None, deref

    def fresh(self, f, d):
        """the object a local pointer owns was made here"""
        ss = self.M.defs(f).get(d, ())
        if not ss:
            return True
        for s in ss[:1]:
            u = memo.unwrap(f, s)
            if u is None or u < 0:
                return False
            nd = f.N[u]
            while nd["k"] in ("ctor", "ilist") and len([c for c in nd.get("c", ()) if c >= 0]) == 1 and \
                    nd.get("t") is not None and nd["t"].ptr is False:
                u = memo.unwrap(f, [c for c in nd["c"] if c >= 0][0])
                nd = f.N[u]
            if nd["k"] == "call" and nd.get("d") is not None and (
                    nd["d"].n in FACTORY + ("clone",) or nd.get("o") in ("*", "+", "-") or self.source(f, u)):
                continue
            if nd["k"] in ("ctor", "ilist", "null"):
                continue
            return False
        return True

    # ---- where a value goes ----------------------------------------------
    def fates(self, f, n, kind):
        """list of (what, holder, node)"""
        out = []
        cur = n
        asarg = False
        while True:
            p = f.parent(cur)
            if p is None:
                return out + [("use", None, cur)]
            pd = f.N[p]
            k = pd["k"]
            if pd.get("as"):
                return out + [("test", None, p)]
            if k in ("ret", "throw", "new", "delete", "rfor"):
                return out + [("ret" if k == "ret" else "use", None, p)]
            if k == "var":
                d = pd["d"]
                loc, alias = self.locals_of(f)
                if d in alias:
                    r = self.root(f, cur)[0]
                    if r is None and self.source(f, cur):
                        return out + [("into", d, p)]
                    return out          # another name; its uses count through alias
                bs = [b for b in pd.get("b", ()) if b is not None]
                if bs:
                    return out + [("into", self.binding(f, pd, kind), p)]
                return out + [("into", d, p)]
            if k in ("cast", "ctor", "ilist", "mem", "x", "rew", "idx", "un", "defarg"):
                if k == "un" and pd.get("o") == "!":
                    return out + [("test", None, p)]
                if k == "ctor" and pd.get("t") is not None and "ostream" in pd["t"].s:
                    return out + [("use", None, p)]
                cur = p
                continue
            if k == "cond":
                if pd["c"][0] == cur:
                    t = pd.get("t")
                    if kind == "N" or t is not None and (t.integer or t.boolean):
                        cur = p          # the choice carries the sign
                        continue
                    return out + [("test", None, p)]
                cur = p
                continue
            if k == "bin":
                o = pd.get("o")
                if o == ",":
                    if pd["c"][0] == cur:
                        return out + [("disc", None, p)]
                    cur = p
                    continue
                if o in COMPARE:
                    if kind == "N" and o not in ("&&", "||"):
                        cur = p
                        continue
                    return out + [("test", None, p)]
                cur = p
                continue
            if k == "asg":
                if pd["c"][0] == cur:
                    return out + [("mod", None, p)]
                r, de = self.root(f, pd["c"][0])
                if r is None or (de and not self.fresh(f, r)) or (
                        kind == "N" and f.N[memo.unwrap(f, pd["c"][0])]["k"] != "ref"):
                    return out + [("use", None, p)]
                return out + [("into" if pd.get("o", "=") == "=" else "merge", r, p)]
            if k == "call":
                o = pd.get("o")
                d = pd.get("d")
                cs = pd["c"]
                pos = cs.index(cur) if cur in cs else -1
                if o in ("=", "*=", "+=", "-=", "/=") and len(cs) == 2:
                    if pos == 0:
                        return out + [("mod", None, p)]
                    r, de = self.root(f, cs[0])
                    if r is None or (de and not self.fresh(f, r)):
                        return out + [("use", None, p)]
                    whole = o == "=" and f.N[memo.unwrap(f, cs[0])]["k"] == "ref"
                    return out + [("into" if whole else "merge", r, p)]
                if o in COMPARE or o == "<<" or o == "!":
                    if kind == "N" and o not in ("<<",):
                        cur = p
                        continue
                    return out + [("test", None, p)]
                t = pd.get("t")
                recv = pos == 0 and bool(pd.get("m"))
                if d is not None and d.k == "conv" and t is not None and t.boolean:
                    q, z = f.parent(p), p
                    while q is not None and f.N[q]["k"] in ("cast", "x"):
                        q, z = f.parent(q), q
                    if q is not None and f.N[q]["k"] == "cond" and f.N[q]["c"][0] == z and f.N[q].get("t") is not None \
                            and f.N[q]["t"].integer:
                        cur = q
                        continue
                    return out + [("test", None, p)]
                if recv and t is not None and t.boolean:
                    return out + [("test", None, p)]
                if recv and d is not None and d.n in ("scale", "append", "prepend", "adjoint", "reset", "push_back"):
                    return out + [("mod", None, p)]
                if t is None or t.s == "void" or (t.boolean and not recv):
                    return out + [("mod" if recv else "use", None, p)]
                if not recv and d is not None and d.n not in FACTORY + ("static_pointer_cast", "dynamic_pointer_cast",
                                                                        "move", "forward") and o is None:
                    asarg = True
                cur = p
                continue
            if k in ("if", "while", "do", "for", "switch"):
                cs = [c for c in pd["c"]]
                t = f.N[cur].get("t")
                if self.iscond(f, p, cur):
                    return out + [("test", None, p)]
                return out + [("use" if asarg else "disc", None, p)]
            if k in ("block", "case", "default", "try", "catch"):
                return out + [("use" if asarg else "disc", None, p)]
            if k in ("lambda", "decl"):
                return out + [("test", None, p)] if k == "lambda" else out
            return out + [("use", None, p)]

    def iscond(self, f, p, n):
        for b in f.g["bl"]:
            if b.get("t") == p and b.get("tc", -1) is not None and b.get("tc", -1) >= 0:
                for x in f.subtree(b["tc"]):
                    if x == n:
                        return True
                if n == b["tc"]:
                    return True
        # last element of a compound condition
        i = f.N[p]["c"].index(n) if n in f.N[p]["c"] else -1
        return f.N[p]["k"] in ("while", "if", "switch") and f.N[n].get("t") is not None and (
            f.N[n]["t"].boolean or f.N[n]["t"].integer or f.N[n]["t"].enum)

    def binding(self, f, vd, kind):
        bs = [b for b in vd["b"] if b is not None]
        best = None
        for x, nd in enumerate(f.N):
            if nd["k"] == "ref" and nd.get("d") in bs and nd.get("t") is not None:
                t = nd["t"]
                if kind == "E" and t.s.replace("const ", "").rstrip(" &") == self.ptr:
                    return nd["d"]
                if kind == "N" and (t.integer or t.boolean):
                    return nd["d"]
        # never mentioned: take the component by declared type
        return vd["d"]

    # ---- kinds that never yield a byproduct --------------------------------
    def always_null(self, g, seen=()):
        if g.u in self.nulls:
            return self.nulls[g.u]
        if g.u in seen:
            return True
        ok = True
        some = False
        for x in g.walk():
            nd = g.N[x]
            if nd["k"] != "ret":
                continue
            some = True
            if not nd.get("c") or not self.nullexpr(g, nd["c"][0], seen + (g.u,)):
                ok = False
        ok = ok and some
        self.nulls[g.u] = ok
        return ok

    def nullexpr(self, g, n, seen):
        n = memo.unwrap(g, n)
        if n is None or n < 0:
            return False
        nd = g.N[n]
        k = nd["k"]
        if k == "null":
            return True
        if k in ("ctor", "ilist"):
            cs = [c for c in nd.get("c", ()) if c >= 0 and g.N[c]["k"] != "defarg"]
            return not cs or (len(cs) == 1 and self.nullexpr(g, cs[0], seen))
        if k == "cond":
            return self.nullexpr(g, nd["c"][1], seen) and self.nullexpr(g, nd["c"][2], seen)
        if k == "call" and nd.get("d") is not None:
            ts = self.P.targets(g, nd)
            return bool(ts) and all(self.always_null(h, seen) for h in ts)
        if k == "ref" and nd["d"] is not None and nd["d"].k == "var":
            ss = self.M.defs(g).get(nd["d"], ())
            return all(self.nullexpr(g, s, seen) for s in ss)
        return False

    def kinds(self, f, n, facts_, seen=()):
        """possible kinds of the expression a pointer designates (None in it: unknown)"""
        n = memo.unwrap(f, n)
        if n is None or n < 0 or (f.u, n) in seen or len(seen) > 12:
            return set() if (f.u, n) in seen else {None}
        seen = seen + ((f.u, n),)
        nd = f.N[n]
        k = nd["k"]
        p = self.place(f, n)
        if p is not None and p in facts_:
            return {facts_[p]}
        if k == "ref" and nd["d"] is not None and nd["d"].k == "var":
            out = set()
            ss = self.M.defs(f).get(nd["d"], ())
            for s in ss:
                t = f.N[memo.unwrap(f, s)].get("t") if s >= 0 else None
                # receiver arguments recorded with it are not its value
                q = f.parent(s)
                if q is not None and f.N[q]["k"] == "call" and f.N[q].get("o") != "=":
                    if f.N[q].get("o") in ("*=",):
                        out |= {self.ns + "Product"}
                    elif f.N[q].get("o") in ("+=", "-="):
                        out |= {self.ns + "Sum"}
                    continue
                out |= self.kinds(f, s, facts_, seen)
            return out or {None}
        if k in ("ctor", "ilist"):
            cs = [c for c in nd.get("c", ()) if c >= 0 and f.N[c]["k"] != "defarg"]
            return self.kinds(f, cs[0], facts_, seen) if len(cs) == 1 else {None}
        if k == "cond":
            return self.kinds(f, nd["c"][1], facts_, seen) | self.kinds(f, nd["c"][2], facts_, seen)
        if k == "call" and nd.get("d") is not None:
            d = nd["d"]
            if d.n in FACTORY:
                m = c04.made(self.M, f, n)
                if m is not None and m[0]:
                    return {memo.strip(m[0])}
                t = nd.get("t")
                return {None}
            if nd.get("o") == "*" and len(nd["c"]) == 2:
                return {self.ns + "Product", self.ns + "Constant"}
            if nd.get("o") in ("+", "-") and len(nd["c"]) == 2:
                return {self.ns + "Sum"}
            if d.n in ("clone", "move", "forward", "as_shared_ptr", "static_pointer_cast", "dynamic_pointer_cast"):
                if d.n in ("as_shared_ptr", "static_pointer_cast", "dynamic_pointer_cast"):
                    t = nd.get("t")
                    m = re.search(r"shared_ptr<(.*?)>", t.s) if t is not None else None
                    if m and m.group(1) != self.expr:
                        return {memo.strip(m.group(1))}
                return self.kinds(f, nd["c"][0], facts_, seen)
            ts = self.P.targets(f, nd)
            out = set()
            for g in ts:
                if g.u == f.u:
                    return {None}
                for x in g.walk():
                    if g.N[x]["k"] == "ret" and g.N[x].get("c"):
                        out |= self.kinds(g, g.N[x]["c"][0], {}, seen)
            return out or {None}
        return {None}

    def place(self, f, n):
        n = memo.unwrap(f, n)
        if n is None or n < 0:
            return None
        nd = f.N[n]
        if nd["k"] == "ref":
            return ("v", nd["d"])
        if nd["k"] == "mem" and nd.get("c"):
            b = memo.unwrap(f, nd["c"][0])
            if f.N[b]["k"] == "this":
                return ("f", nd["d"].n)
            q = self.place(f, b)
            return (q, nd["d"].n) if q is not None else None
        if nd["k"] == "call" and nd.get("o") in ("->", "*") and len(nd["c"]) == 1:
            return self.place(f, nd["c"][0])
        if nd["k"] == "un" and nd.get("o") == "*":
            return self.place(f, nd["c"][0])
        return None

    def receiver(self, f, n):
        nd = f.N[n]
        return nd["c"][0] if nd.get("m") and nd["c"] else None

    def harmless(self, f, n, facts_):
        """the kind of the receiver never yields a byproduct"""
        nd = f.N[n]
        ts = self.P.targets(f, nd)
        if ts and all(self.always_null(g) for g in ts):
            return True
        r = self.receiver(f, n)
        if r is None:
            return False
        r0 = memo.unwrap(f, r)
        while r0 is not None and r0 >= 0 and f.N[r0]["k"] == "call" and f.N[r0].get("o") in ("->", "*") \
                and len(f.N[r0]["c"]) == 1:
            r0 = memo.unwrap(f, f.N[r0]["c"][0])
        t = f.N[r0].get("t")
        ks = None
        if t is not None:
            s = memo.strip(t.s.replace("const ", "").rstrip(" &*"))
            m = re.match(r"^(?:std::)?shared_ptr<(.*)>$", t.s.replace("const ", "").rstrip(" &*"))
            if m:
                s = memo.strip(m.group(1))
            if self.kindq.get(s) == "E" and s != self.expr and s != self.ptr:
                ks = {s}
        if ks is None:
            ks = self.kinds(f, r0, facts_)
        if not ks or None in ks:
            return False
        for s in ks:
            c = self.X.byname.get(s) or self.X.strip.get(s)
            if c is None:
                return False
            own, fs = self.X.find(c, nd["d"].n)
            if not fs or not all(self.always_null(g) for g in fs):
                # derived kinds of it (declared commutativity) share its implementation
                return False
        return True


def tracked(X, f):
    """actions per CFG element"""
    elems = {e for b in f.g["bl"] for e in b["e"] if isinstance(e, int)}

    def at(n):
        x = n
        while x is not None and x not in elems:
            x = f.parent(x)
        return x if x is not None else n
    acts = {}
    srcs = {}
    for n in f.walk():
        k = X.source(f, n)
        if not k:
            continue
        srcs[n] = k
        for w, v, s in X.fates(f, n, k):
            if w in ("into", "merge"):
                acts.setdefault(at(s), []).append((w, "src", n, v))
            elif w in ("disc", "test"):
                if k == "N":
                    continue        # reordering columns or bundles changes no sign
                acts.setdefault(at(n), []).append(("lost", "src", n, None))
            elif w == "ret":
                acts.setdefault(at(n), []).append(("ret", "src", n, None))
    # calls of local lambdas that put a byproduct into a captured local
    loc, alias = X.locals_of(f)
    for n in f.walk():
        if f.N[n]["k"] != "lambda":
            continue
        for g in X.P.lambdas_of(f.N[n]):
            if g.b is None:
                continue
            gl, ga = X.locals_of(g)
            for m in g.walk():
                nd = g.N[m]
                if nd["k"] == "ref" and nd["d"] is not None and nd["d"] in loc and nd["d"] not in gl:
                    for w, v, s in X.fates(g, m, "E"):
                        if w in ("ret", "use", "into", "merge"):
                            acts.setdefault(at(n), []).append(("use", nd["d"], m, None))
                k = X.source(g, m)
                if k:
                    for w, v, s in X.fates(g, m, k):
                        pd = g.N[s]
                        if w == "use" and pd["k"] in ("asg", "call") and len(pd.get("c", ())) == 2 and \
                                pd.get("o") in ("=", "*="):
                            z = memo.unwrap(g, pd["c"][0])
                            while z is not None and z >= 0 and g.N[z]["k"] in ("un", "call", "mem") and g.N[z].get("c"):
                                z = memo.unwrap(g, g.N[z]["c"][0])
                            if z is not None and z >= 0 and g.N[z]["k"] == "ref" and g.N[z]["d"] in loc:
                                acts.setdefault(at(n), []).append(("merge", "src", n, g.N[z]["d"]))
                                srcs.setdefault(n, k)
    if not srcs:
        return None
    holders = {a[3] for l in acts.values() for a in l if a[0] in ("into", "merge") and a[3] is not None}
    # follow the holders' mentions (closure over locals they flow into)
    done = set()
    while holders - done:
        h = sorted(holders - done, key=lambda d: d.id)[0]
        done.add(h)
        for n in f.walk():
            nd = f.N[n]
            if nd["k"] != "ref" or nd["d"] is None:
                continue
            d = nd["d"]
            if d in alias and d is not h:
                d = X.root(f, n)[0]
            if d is not h:
                continue
            for kind in ("N",) if numeric(X, f, h) else ("E",):
                for w, v, s in X.fates(f, n, kind):
                    if w in ("into", "merge"):
                        acts.setdefault(at(s), []).append((w, h, n, v))
                        holders.add(v)
                    elif w in ("ret", "use") or (w == "test" and kind == "N") or (w == "disc" and kind == "N" and False):
                        acts.setdefault(at(n if w == "use" else s), []).append((w if w == "ret" else "use", h, n, None))
    # plain overwrites of holders
    over = {}
    for n in f.walk():
        nd = f.N[n]
        if nd["k"] == "var" and nd.get("d") is not None:
            for v in [nd["d"]] + [b for b in nd.get("b", ()) if b is not None]:
                if v in holders:
                    over.setdefault(at(n), set()).add(v)
        elif nd["k"] == "asg" and nd.get("o", "=") == "=" or nd["k"] == "call" and nd.get("o") == "=" and len(nd["c"]) == 2:
            z = memo.unwrap(f, nd["c"][0])
            if z >= 0 and f.N[z]["k"] == "ref":
                r, de = X.root(f, z)
                if r in holders and not de:
                    over.setdefault(at(n), set()).add(r)
    return acts, srcs, holders, over


def numeric(X, f, d):
    for nd in f.N:
        if nd["k"] in ("var", "ref") and nd.get("d") is d and nd.get("t") is not None:
            t = nd["t"]
            return t.integer or t.boolean or t.s.startswith("std::optional<")
    return False


def analyse(X, f, rep=None, out=None):
    """(carries?, violations) ; violations: list of (source node, reason, node)"""
    tr = tracked(X, f)
    if tr is None:
        return None, [], 0
    acts, srcs, holders, over = tr
    carries = []
    lost = []
    # a sign matters on some paths only (antisymmetric tensors); it is lost when it reaches nothing at all
    used = {a[1] for l in acts.values() for a in l if a[0] in ("use", "ret")}
    flows = {(a[1], a[3]) for l in acts.values() for a in l if a[0] in ("into", "merge") and a[1] != "src"}
    grow = True
    while grow:
        grow = False
        for a, b in flows:
            if b in used and a not in used:
                used.add(a)
                grow = True

    def transfer(e, st, report):
        pend, fk = st
        al = acts.get(e, ())
        ov = over.get(e, ())
        if not al and not ov:
            return st
        pend = set(pend)
        before = set(pend)
        fd = dict(fk)
        add = set()
        moved = set()
        for w, h, n, v in al:
            if h == "src":
                if w == "ret":
                    if report:
                        carries.append(srcs[n])
                    continue
                if f.N[n]["k"] == "call" and srcs[n] == "E" and X.harmless(f, n, fd):
                    if report and rep is not None:
                        rep.count("discards proven harmless" if w == "lost" else "byproducts proven absent")
                    continue
                if w == "lost":
                    if report:
                        lost.append((n, "is discarded", n))
                    continue
                add.add((v, n))
            else:
                its = {i for i in before if i[0] is h}
                moved |= its
                if w in ("into", "merge"):
                    add |= {(v, i[1]) for i in its}
                elif w == "ret" and report:
                    for i in its:
                        carries.append(srcs[i[1]])
        for v in ov:
            for i in before:
                if i[0] is v and i not in moved and report and not (srcs[i[1]] == "N" and v in used):
                    lost.append((i[1], "is overwritten before it was used", e))
            pend = {i for i in pend if i[0] is not v}
        pend = (pend - moved) | add
        return frozenset(pend), fk

    def edge(b, k, st):
        at = flow.atoms(f, b)
        if at is None:
            return st
        c, neg = at
        true = (k == 0) != neg
        pend, fk = st
        t = truth(X, f, c)
        if t is not None:
            what, h, val = t
            # what: 'null' (true means non-null), 'is' , 'one', 'zero'
            dead = (what in ("nonnull", "is") and not true) or (what == "null" and true) or \
                (what == "one" and true == val)
            if dead and h is not None:
                pend = frozenset(i for i in pend if i[0] is not h)
        ik = iskind(X, f, c)
        if ik is not None and true:
            fk = fk | frozenset([ik])
        return pend, fk

    inn = flow.solve(f, (frozenset(), frozenset()), transfer, edge,
                     lambda a, b: (a[0] | b[0], a[1] & b[1]))
    flow.replay(f, inn, transfer)
    ex = inn.get(f.g["ex"])
    if ex is not None:
        for v, n in sorted(ex[0], key=lambda z: (z[1], z[0].id)):
            if srcs[n] == "N" and v in used:
                continue
            lost.append((n, "is held in '%s' but not accounted for on every path" % v.n, n))
    return carries, lost, len(srcs)


def truth(X, f, c):
    """(what, holder, polarity) tested by condition c"""
    c = memo.unwrap(f, c)
    nd = f.N[c]
    if nd["k"] == "ref":
        return ("nonnull", X.root(f, c)[0], True)
    if nd["k"] == "call" and nd.get("d") is not None:
        if nd["d"].k == "conv":
            return ("nonnull", X.root(f, nd["c"][0])[0], True)
        if nd["d"].n == "is" and nd["c"]:
            return ("is", X.root(f, nd["c"][0])[0], True)
        if nd["d"].n in ("has_value", "get") and nd["c"]:
            return ("nonnull", X.root(f, nd["c"][0])[0], True)
    o = nd.get("o")
    if o in ("==", "!=") and nd["k"] in ("bin", "call", "rew") and len(nd.get("c", ())) >= 2:
        a, b = [memo.unwrap(f, z) for z in nd["c"][:2]]
        for x, y in ((a, b), (b, a)):
            yd = f.N[y]
            while yd["k"] in ("ctor", "ilist") and len(yd.get("c", ())) >= 1 and yd["c"][0] >= 0:
                y = memo.unwrap(f, yd["c"][0])
                yd = f.N[y]
            h = X.root(f, x)[0]
            if h is None:
                continue
            if yd["k"] == "null":
                return ("null" if o == "==" else "nonnull", h, True)
            if yd["k"] == "int" and str(yd["v"]) == "1":
                return ("one", h, o == "==")
    if nd["k"] == "rew" and nd.get("c"):
        return truth(X, f, nd["c"][0])
    if nd["k"] == "call" and nd.get("d") is not None and nd["d"].n == "is_one" and nd["c"]:
        return ("one", X.root(f, nd["c"][0])[0], True)
    return None


def iskind(X, f, c):
    c = memo.unwrap(f, c)
    nd = f.N[c]
    if nd["k"] == "call" and nd.get("d") is not None and nd["d"].n == "is" and nd["c"] and nd["d"].u:
        m = re.search(r"F@is<#\$@N@(.*?)>#1", nd["d"].u)
        p = X.place(f, nd["c"][0])
        if m and p is not None:
            k = re.sub(r"@(?:N|S|ST)@", "::", m.group(1)).split(">")[0]
            return (p, k)
    return None


# ---- parity counter --------------------------------------------------------
def parity_key(d):
    m = re.search(r"<(.*)>$", d.q or "")
    if m:
        return m.group(1)
    m = re.search(r"<#(.*?)>", d.u or "")
    return m.group(1) if m else "?"


def parity(X, f, rep, find):
    reads = [n for n in f.walk() if f.N[n]["k"] == "call" and f.N[n].get("d") is not None and
             f.N[n]["d"].n == "ts_swap_counter_is_even"]
    if not reads:
        return
    touch = X.resets

    def transfer(e, st, report):
        nd = f.N[e]
        if nd["k"] != "call" or nd.get("d") is None:
            return st
        d = nd["d"]
        if d.n == "reset_ts_swap_counter":
            return frozenset([(parity_key(d), "reset")]) | frozenset(z for z in st if z[0] != parity_key(d))
        if d.n == "ts_swap_counter_is_even":
            k = parity_key(d)
            if report:
                s = [z[1] for z in st if z[0] == k] or ["unset"]
                rep.count("parity reads")
                for z in s:
                    if z != "reset":
                        find(f, e, z)
            return st
        out = set(st)
        if d.n in SORTS and not (d.q or "").startswith(X.ns):
            out = {(k, "reordered without counting" if z == "reset" else z) for k, z in out}
        for g in X.P.targets(f, nd):
            for k in touch.get(g.u, ()):
                out = {z for z in out if z[0] != k} | {(k, "reset elsewhere in between")}
        return frozenset(out)

    def join(a, b):
        out = set(a | b)
        for k in {z[0] for z in a | b}:
            for s in (a, b):
                if not any(z[0] == k for z in s):
                    out.add((k, "unset"))
        return frozenset(out)
    inn = flow.solve(f, frozenset(), transfer, lambda b, k, s: s, join)
    flow.replay(f, inn, transfer)


def resetters(P):
    """function -> counters it (transitively) resets"""
    direct = {}
    calls = {}
    for f in P.fns.values():
        for nd in f.N:
            if nd["k"] == "call" and nd.get("d") is not None:
                if nd["d"].n == "reset_ts_swap_counter":
                    direct.setdefault(f.u, set()).add(parity_key(nd["d"]))
                elif nd["d"].u in P.fns:
                    calls.setdefault(nd["d"].u, set()).add(f.u)
    work = list(direct)
    while work:
        u = work.pop()
        for c in calls.get(u, ()):
            n = direct.setdefault(c, set())
            if not direct[u] <= n:
                n |= direct[u]
                work.append(c)
    return direct


# ---- canonical slots -------------------------------------------------------
ORDER = ("named_indices_canonical", "get_indices")


def slots(X, f, rep, find):
    for n in f.walk():
        nd = f.N[n]
        if nd["k"] != "call" or nd.get("d") is None or nd["d"].n != "canonicalize_slots" or nd.get("t") is None or \
                "SlotCanonicalizationMetadata" not in nd["t"].s:
            continue
        rep.count("slot canonicalizations")
        order = phase = escapes = False
        p = f.parent(n)
        hold = None
        while p is not None and f.N[p]["k"] in ("cast", "ctor", "x"):
            p = f.parent(p)
        if p is not None and f.N[p]["k"] == "var":
            hold = f.N[p]["d"]
        fs = [f] + [g for m in f.walk() if f.N[m]["k"] == "lambda" for g in X.P.lambdas_of(f.N[m])]
        for g in fs:
            for m in g.walk():
                md = g.N[m]
                if md["k"] in ("mem", "call") and md.get("d") is not None and md.get("c"):
                    b = memo.unwrap(g, md["c"][0]) if md["c"][0] >= 0 else -1
                    if b < 0:
                        continue
                    on = g.N[b]["k"] == "ref" and g.N[b]["d"] is hold or (g is f and b == n)
                    if on and md["d"].n in ORDER:
                        order = True
                    if on and md["d"].n == "phase":
                        phase = True
                if md["k"] == "ref" and md.get("d") is hold and hold is not None:
                    q = g.parent(m)
                    while q is not None and g.N[q]["k"] in ("cast",):
                        q = g.parent(q)
                    if q is not None and g.N[q]["k"] not in ("mem",) and not (
                            g.N[q]["k"] == "call" and g.N[q].get("m") and g.N[q]["c"][0] == m):
                        escapes = True
        if order and not phase and not escapes:
            find(f, n)


# ---- values kept under a key that identifies nodes only up to their phase ----
def origins(X, f, n, seen):
    """nodes a value may come from (locals resolved)"""
    n = memo.unwrap(f, n)
    if n is None or n < 0 or n in seen:
        return []
    seen.add(n)
    nd = f.N[n]
    k = nd["k"]
    if k in ("ctor", "ilist"):
        cs = [c for c in nd.get("c", ()) if c >= 0 and f.N[c]["k"] != "defarg"]
        return origins(X, f, cs[0], seen) if len(cs) == 1 else [n]
    if k == "cond":
        return origins(X, f, nd["c"][1], seen) + origins(X, f, nd["c"][2], seen)
    if k == "call" and nd.get("d") is not None and nd["d"].n in ("move", "forward", "as_const") and nd["c"]:
        return origins(X, f, nd["c"][-1], seen)
    if k == "ref" and nd["d"] is not None and nd["d"].k == "var":
        out = [n]
        for m in f.walk():
            md = f.N[m]
            if md["k"] == "var" and md.get("d") is nd["d"] and md.get("c"):
                out += origins(X, f, md["c"][0], seen)
            if (md["k"] == "asg" or md["k"] == "call" and md.get("o") == "=") and len(md.get("c", ())) == 2:
                z = memo.unwrap(f, md["c"][0])
                if z >= 0 and f.N[z]["k"] == "ref" and f.N[z].get("d") is nd["d"]:
                    out += origins(X, f, md["c"][1], seen)
        # written by a lambda that captures it
        for m in f.walk():
            if f.N[m]["k"] == "lambda":
                for g in X.P.lambdas_of(f.N[m]):
                    for x in g.walk():
                        md = g.N[x]
                        if (md["k"] == "asg" or md["k"] == "call" and md.get("o") == "=") and len(md.get("c", ())) == 2:
                            z = memo.unwrap(g, md["c"][0])
                            if z >= 0 and g.N[z]["k"] == "ref" and g.N[z].get("d") is nd["d"]:
                                out.append(("in", g, md["c"][1]))
        return out
    return [n]


def phased(X):
    """functions that multiply a parameter by a phase (directly or through another)"""
    PH = set()
    fns = [f for f in X.P.fns.values() if f.b is not None and inrepo(f)]
    grow = True
    while grow:
        grow = False
        for f in fns:
            if f.u in PH:
                continue
            ps = {p["d"] for p in f.p if p["d"] is not None}
            for n in f.walk():
                nd = f.N[n]
                if nd["k"] != "call":
                    continue
                args = None
                if nd.get("d") is not None and nd["d"].n == "mult_by_phase":
                    args = nd["c"][:1]
                elif isphase(X, f, nd, PH):
                    args = nd["c"]
                if args and any(f.N[z]["k"] == "ref" and f.N[z].get("d") in ps for a in args for z in f.subtree(a)):
                    PH.add(f.u)
                    grow = True
                    break
                # inside a lambda of it
            if f.u not in PH:
                for n in f.walk():
                    if f.N[n]["k"] == "lambda":
                        for g in X.P.lambdas_of(f.N[n]):
                            if any(g.N[m]["k"] == "call" and g.N[m].get("d") is not None and
                                   g.N[m]["d"].n == "mult_by_phase" and
                                   any(g.N[z]["k"] == "ref" and g.N[z].get("d") in ps for z in g.subtree(g.N[m]["c"][0]))
                                   for m in g.walk()):
                                PH.add(f.u)
                                grow = True
    return PH


def isphase(X, f, nd, PH):
    if nd.get("d") is None:
        return False
    if nd["d"].n == "mult_by_phase":
        return True
    if any(g.u in PH for g in X.P.targets(f, nd)):
        return True
    return False


def owner(f):
    return memo.strip(f.q).split("::operator()")[0]


def cached(X, rep, find, cls="sequant::CacheManager"):
    PH = phased(X)
    for f in X.P.fns.values():
        if f.b is None or not inrepo(f) or memo.strip(f.q).startswith(cls):
            continue
        for n in f.walk():
            nd = f.N[n]
            if nd["k"] != "call" or nd.get("d") is None or not memo.strip(nd["d"].q or "").startswith(cls + "::"):
                continue
            if nd["d"].n not in ("access", "store"):
                continue
            rep.count("cached values taken or stored")
            for w, at in sinks(X, f, n, PH, cls, set()):
                find(f, at, "hands on a cached value without applying the phase of the node it is for", "take")
            if nd["d"].n == "store" and len(nd["c"]) >= 3:
                ok = False
                os = origins(X, f, nd["c"][-1], set())
                real = []
                for o in os:
                    g, x = (o[1], o[2]) if isinstance(o, tuple) else (f, o)
                    od = g.N[x]
                    if od["k"] == "call":
                        if isphase(X, g, od, PH) or (od.get("d") is not None and
                                                     memo.strip(od["d"].q or "").startswith(cls)):
                            ok = True
                        else:
                            real.append(x)
                    elif od["k"] == "ref" and od.get("d") is not None and od["d"].k == "parm" and g is f:
                        real.append(x)
                if not ok and real:
                    find(f, n, "stores a value without applying the phase of the node it is for", "store")


def sinks(X, f, n, PH, cls, seen):
    if (f.u, n) in seen:
        return
    seen.add((f.u, n))
    cur = n
    while True:
        p = f.parent(cur)
        if p is None:
            return
        pd = f.N[p]
        k = pd["k"]
        if pd.get("as"):
            return
        if k == "ret":
            yield ("ret", p)
            return
        if k in ("cast", "ctor", "ilist", "x") and not (pd.get("t") is not None and pd["t"].s == "void"):
            cur = p
            continue
        if k == "cond":
            if pd["c"][0] == cur:
                return
            cur = p
            continue
        if k == "var" and pd.get("d") is not None:
            for m in f.walk():
                if f.N[m]["k"] == "ref" and f.N[m].get("d") is pd["d"]:
                    for z in sinks(X, f, m, PH, cls, seen):
                        yield z
            return
        if k in ("asg",) or k == "call" and pd.get("o") == "=" and len(pd["c"]) == 2:
            if pd["c"][0] == cur:
                return
            z = memo.unwrap(f, pd["c"][0])
            if f.N[z]["k"] == "ref" and f.N[z].get("d") is not None and f.N[z]["d"].k == "var":
                for m in f.walk():
                    if m != z and f.N[m]["k"] == "ref" and f.N[m].get("d") is f.N[z]["d"]:
                        for y in sinks(X, f, m, PH, cls, seen):
                            yield y
                return
            yield ("kept", p)
            return
        if k == "call":
            d = pd.get("d")
            if isphase(X, f, pd, PH):
                return
            if d is not None and (memo.strip(d.q or "").startswith(cls) or "::log" in (d.q or "")):
                return
            if d is not None and d.n in ("move", "forward", "as_const"):
                cur = p
                continue
            if pd["c"] and pd["c"][0] == cur and pd.get("m"):
                return                      # looked at
            if d is not None and (d.q or "").startswith("std::"):
                return
            ts = X.P.targets(f, pd)
            if not ts:
                return
            # handed to another function of the library: is it passed on from there?
            for g in ts:
                i = pd["c"].index(cur) - (1 if pd.get("m") or pd.get("o") == "()" else 0) if cur in pd["c"] else -1
                if 0 <= i < len(g.p) and g.p[i]["d"] is not None:
                    for m in g.walk():
                        if g.N[m]["k"] == "ref" and g.N[m].get("d") is g.p[i]["d"]:
                            for y in sinks(X, g, m, PH, cls, seen):
                                yield ("passed", p)
                                return
            return
        return


def shared_definitions(X, rep, find):
    """one node stands for all that equal it up to phase: both phases take part"""
    for f in X.P.fns.values():
        if f.b is None or not inrepo(f):
            continue
        look = None
        for n in f.walk():
            nd = f.N[n]
            if nd["k"] == "call" and nd.get("d") is not None and nd["d"].n in ("emplace", "insert", "try_emplace",
                                                                              "insert_or_assign") and nd["c"]:
                t = f.N[memo.unwrap(f, nd["c"][0])].get("t")
                if t is not None and re.search(r"unordered_map<.*TreeNode|map<.*BinaryNode|SubexpressionNames", t.s + (t.r or "")):
                    look = n
        if look is None:
            continue
        dev = {m for m in f.walk() if f.N[m]["k"] == "call" and f.N[m].get("d") is not None and f.N[m]["d"].n == "to_expr"}
        fl = [f] + [g for m in f.walk() if f.N[m]["k"] == "lambda" for g in X.P.lambdas_of(f.N[m])]
        if not any(g.N[m]["k"] == "call" and g.N[m].get("d") is not None and g.N[m]["d"].n == "to_expr" for g in fl
                   for m in g.walk()):
            continue
        rep.count("shared definitions")
        places = set()
        reads = 0
        for g in fl:
            for m in g.walk():
                md = g.N[m]
                if md["k"] == "call" and md.get("d") is not None and md["d"].n == "canon_phase":
                    reads += 1
                    places.add(repr(place_of(g, md["c"][0])))
        # phases of both nodes, or the definition scaled by its own phase
        scaled = any(scales(g, m) for g in fl for m in g.walk() if g.N[m]["k"] == "call" and
                     g.N[m].get("d") is not None and g.N[m]["d"].n == "to_expr")
        if reads and len(places) < 2 and not scaled:
            find(f, look, "defines a shared expression by one node but applies the other nodes' own phase, not the phase "
                          "relative to it", "relative")


def place_of(g, n):
    out = []
    for z in g.subtree(n):
        nd = g.N[z]
        if nd["k"] == "ref" and nd.get("d") is not None:
            out.append(nd["d"].n)
        elif nd["k"] == "mem" and nd.get("d") is not None:
            out.append(nd["d"].n)
    return tuple(out)


def scales(g, m):
    p = g.parent(m)
    while p is not None and g.N[p]["k"] in ("cast", "ctor", "x", "ilist"):
        p = g.parent(p)
    if p is None:
        return False
    if g.N[p]["k"] == "call" and g.N[p].get("o") == "*":
        return True
    if g.N[p]["k"] == "var":
        d = g.N[p]["d"]
        for x in g.walk():
            nd = g.N[x]
            if nd["k"] == "call" and nd.get("o") in ("*=", "*") and nd["c"]:
                for c in nd["c"]:
                    z = memo.unwrap(g, c)
                    if z >= 0 and g.N[z]["k"] == "ref" and g.N[z].get("d") is d:
                        return True
    return False


def detached(X, f, rep, find):
    """a part of the object canonicalized in place, its sign kept beside it"""
    if not f.c or f.co:
        return
    for n in f.walk():
        if X.source(f, n) != "E":
            continue
        nd = f.N[n]
        mine = None
        for c in nd["c"]:
            z = c
            for _ in range(20):
                z = memo.unwrap(f, z)
                if z is None or z < 0:
                    break
                zd = f.N[z]
                if zd["k"] == "mem" and zd.get("c") and f.N[memo.unwrap(f, zd["c"][0])]["k"] == "this":
                    mine = zd["d"].n
                    break
                if zd["k"] == "ref" and zd["d"] is not None and zd["d"].k == "var":
                    loc, alias = X.locals_of(f)
                    if zd["d"] not in alias or alias[zd["d"]] is None:
                        break
                    z = alias[zd["d"]]
                elif zd["k"] in ("call", "un", "idx", "mem") and zd.get("c"):
                    z = zd["c"][0]
                else:
                    break
        if mine is None:
            continue
        todo, seen = [n], set()
        while todo:
            x = todo.pop()
            for w, v, s in X.fates(f, x, "E"):
                if w in ("into", "merge") and v is not None and v not in seen:
                    seen.add(v)
                    todo += [m for m in f.walk() if f.N[m]["k"] == "ref" and f.N[m].get("d") is v]
                if w == "use" and f.N[s]["k"] == "asg" and f.N[s].get("o", "=") == "=":
                    z = memo.unwrap(f, f.N[s]["c"][0])
                    t = f.N[z].get("t")
                    if f.N[z]["k"] == "mem" and t is not None and t.integer and f.N[z]["d"].n != mine:
                        find(f, n, mine, f.N[z]["d"].n)


def unit(f, n):
    """+1 or -1 as a literal"""
    n = memo.unwrap(f, n)
    neg = False
    while n is not None and n >= 0 and f.N[n]["k"] == "un" and f.N[n].get("o") in ("-", "+"):
        neg ^= f.N[n]["o"] == "-"
        n = memo.unwrap(f, f.N[n]["c"][0])
    if n is None or n < 0 or f.N[n]["k"] not in ("int", "flt"):
        return None
    try:
        v = float(f.N[n]["v"])
    except (KeyError, ValueError):
        return None
    return (-1 if neg else 1) if v == 1 else None


def accumulators(f):
    """locals that collect a sign: {variable: (its declaration, nodes that read it for something else)}"""
    out = {}
    own = {}
    for n in f.walk():
        nd = f.N[n]
        if nd["k"] == "var" and nd.get("d") is not None and nd.get("c") and nd.get("t") is not None and \
                (nd["t"].integer or nd["t"].floating) and unit(f, nd["c"][0]) == 1:
            own[nd["d"]] = n
    if not own:
        return out
    neg, upd = set(), set()
    for n in f.walk():
        nd = f.N[n]
        if nd["k"] != "asg" or len(nd["c"]) != 2:
            continue
        t = memo.unwrap(f, nd["c"][0])
        if t is None or t < 0 or f.N[t]["k"] != "ref" or f.N[t].get("d") not in own:
            continue
        v = f.N[t]["d"]
        upd.add(t)
        if nd.get("o") == "*=" and unit(f, nd["c"][1]) == -1:
            neg.add(v)
        elif nd.get("o", "=") == "=":
            r = memo.unwrap(f, nd["c"][1])
            if f.N[r]["k"] == "un" and f.N[r].get("o") == "-":
                z = memo.unwrap(f, f.N[r]["c"][0])
                if f.N[z]["k"] == "ref" and f.N[z].get("d") is v:
                    neg.add(v)
                    upd.add(z)
    for v in neg:
        rd = [n for n in f.walk() if f.N[n]["k"] == "ref" and f.N[n].get("d") is v and n not in upd]
        out[v] = (own[v], rd)
    return out


def solve_all(X, rep=None, only=None):
    P = X.P
    for f in P.fns.values():
        if f.b is None or only is not None and not only(f):
            continue
        for v, (n, rd) in accumulators(f).items():
            if any(f.N[a]["k"] == "ret" for x in rd for a in f.ancestors(x)) and not direct(X, f) and \
                    f.t is not None and not f.t.boolean:
                X.derived.setdefault(f.u, "N")
    fns = [f for f in P.fns.values() if f.b is not None and f.g and f.g.get("bl") and (only is None or only(f))]
    X.resets = resetters(P)
    cand = fns
    res = {}
    for rnd in range(6):
        new = {}
        for f in cand:
            if not any(X.source(f, n) for n in range(len(f.N)) if f.N[n]["k"] == "call"):
                if not any(nd["k"] == "lambda" for nd in f.N):
                    continue
            car, lost, ns = analyse(X, f)
            if car is None:
                continue
            res[f.u] = (f, lost, ns)
            if car and not direct(X, f):
                new[f.u] = car[0] if "E" not in car else "E"
        if all(X.derived.get(u) == k for u, k in new.items()):
            break
        X.derived.update(new)
    return res


def direct(X, f):
    """already a source by its role"""
    if f.c is None:
        return f.n == "ts_swap_counter_is_even"
    cls = memo.strip(f.q).rsplit("::", 1)[0]
    kd = X.kindq.get(cls)
    return (kd == "E" and f.n in ("canonicalize", "rapid_canonicalize")) or (kd == "C" and f.n == "apply") or \
        (bool(X.net.match(cls)) and "canonicaliz" in f.n)


def inrepo(f):
    return f.f.startswith("SeQuant/")


def check(X, rep):
    res = solve_all(X, only=inrepo)
    for u, (f, lost, ns) in sorted(res.items(), key=lambda z: (z[1][0].f, z[1][0].l)):
        if not ns:
            continue
        # counts only
        analyse(X, f, rep)
        rep.count("functions holding byproducts")
        rep.count("byproducts tracked", ns)
        rep.sample("%s %s" % (f.loc(), memo.strip(f.q)))
        for n, why, at in lost:
            nd = f.N[n]
            nm = nd["d"].n if nd.get("d") is not None else "lambda"
            rep.find("%s:%s:%s" % (memo.strip(f.q), nm, why.split(" ")[1]), f.loc(at),
                     "%s: the factor returned by %s (line %s) %s" % (memo.strip(f.q), nm, f.line(n), why))
    for f in X.P.fns.values():
        if f.b is None or not inrepo(f) or not f.g or not f.g.get("bl"):
            continue
        for v, (n, rd) in accumulators(f).items():
            rep.count("signs accumulated")
            inner = [g for x in f.walk() if f.N[x]["k"] == "lambda" for g in X.P.lambdas_of(f.N[x])
                     if any(m.get("d") is v for m in g.N if m["k"] == "ref")]
            if not rd and not inner:
                rep.find("%s:sign:%s" % (memo.strip(f.q), v.n), f.loc(n),
                         "%s collects a sign in '%s' that reaches nothing" % (memo.strip(f.q), v.n))
        parity(X, f, rep, lambda f, n, why: rep.find(
            "%s:parity:%s" % (memo.strip(f.q), why), f.loc(n),
            "%s reads the swap parity although the counter is %s on some path" % (memo.strip(f.q), why)))
        slots(X, f, rep, lambda f, n: rep.find(
            "%s:slots" % memo.strip(f.q), f.loc(n),
            "%s uses the canonical index order of a network but not its phase" % memo.strip(f.q)))


    for f in X.P.fns.values():
        if f.b is not None and inrepo(f) and f.c:
            detached(X, f, rep, lambda f, n, a, b: rep.find(
                "%s:detached:%s" % (memo.strip(f.q), a), f.loc(n),
                "%s rewrites %s into its canonical form and keeps the sign only in %s: users of %s lose it" %
                (memo.strip(f.q), a, b, a)))
    bad = lambda f, n, why, key: rep.find("%s:cached:%s" % (memo.strip(f.q), key), f.loc(n),
                                          "%s %s" % (memo.strip(f.q), why))
    cached(X, rep, bad)
    shared_definitions(X, rep, bad)


def run(pid):
    rep = Report(pid, RULE)
    t = selftest.program("byproduct")
    st = Report(pid, RULE)
    check(Model(t, effects.Eff(t)), st)
    got = set()
    for k in st.findings:
        got.add(k.split("::", 1)[1].split(":")[0].split("(")[0])
    want = {"bad_discard", "bad_helper", "bad_test", "bad_path", "bad_loop", "bad_lambda", "bad_acc", "bad_sign",
            "bad_parity", "bad_nested", "bad_signvar", "bad_signret", "Leaf"}
    for w in sorted(want):
        rep.selftest("finds " + w, w in got)
    rep.selftest("quiet otherwise: %s" % sorted(got - want), not got - want)
    P = facts.load()
    E = effects.Eff(P)
    X = Model(P, E)
    check(X, rep)
    rep.floor("functions holding byproducts", 35)
    rep.floor("byproducts tracked", 45)
    rep.floor("signs accumulated", 3)
    rep.floor("parity reads", 8)
    rep.floor("slot canonicalizations", 3)
    rep.floor("cached values taken or stored", 8)
    rep.floor("shared definitions", 1)
    return rep.finish()
