"""C11: bodies of parallel loops do not race on variables they share."""
from collections import defaultdict
from sqlib import effects, facts, locks, memo, selftest
from sqlib.report import Report
from checks import c23_threads as c23

TECHNIQUE = ("sharing analysis of the functions worker threads run concurrently: call-graph closure from thread starts to the function objects handed "
             "to the parallel loops, write effects on variables captured by reference and on the enclosing object (interprocedural effect "
             "summaries), lockset dataflow at every such access, and a privacy proof for element accesses (index is the iteration's own)")
NOTE = ("Objects reached through smart pointers passed on to other functions (sub-expressions shared between two elements of the input, lazily filled "
        "caches of constant objects) are not distinguished and not judged. Elements the loop hands to its body are taken to be distinct; the "
        "parallel-algorithms branch (<execution>) is not part of the configured build.")
RULE = ("A function object that several threads run at once writes a variable declared outside it (captured by reference or through a pointer), or a "
        "field of the object it was created in, only (a) under a lock that is itself shared and that covers every access to that variable in "
        "such bodies, (b) through an atomic whose update is indivisible, or (c) at an element selected by a value private to the iteration, with "
        "every access in such bodies going to that same element. vector<bool> elements and associative containers are never private.")

SEQ = ("std::vector<", "boost::container::vector<", "boost::container::small_vector<", "boost::container::small_vector_base<",
       "boost::container::static_vector<", "std::array<", "std::span<", "std::deque<", "std::unique_ptr<")
ELEM = {"operator[]", "at", "data", "begin", "end", "front", "back", "get", "first", "second", "value"}


def cs(nd):
    return [y for y in nd.get("c", ()) if y is not None and y >= 0]


class Model:
    def __init__(self, P, E):
        self.P, self.E = P, E
        self.C = c23.Model(P)
        self.L = locks.Locks(P)
        self.E_ok = E is not None
        self.find()

    # ------------------------------------------------------------ bodies
    def find(self):
        """S: function objects several threads run at once; region: lambda u -> its body in S"""
        P, C = self.P, self.C
        self.S = {}
        st = []
        self.starts = 0
        self.born = {}
        for f in P.fns.values():
            for n in f.walk():
                if f.N[n]["k"] == "lambda":
                    for g in P.lambdas_of(f.N[n]):
                        self.born[g.u] = (f, n)
                if f.N[n]["k"] not in ("ctor", "call"):
                    continue
                s = C.starts(f, n)
                if s is None:
                    continue
                self.starts += 1
                for g in C.callables(f, s[1]):
                    if g.u not in self.S:
                        self.S[g.u] = (f, n)
                        st.append(g)
        while st:
            g = st.pop()
            for h in self.region(g):
                for n in h.walk():
                    nd = h.N[n]
                    if nd["k"] != "call" or nd.get("o") != "()":
                        continue
                    for b in C.bodies(h, n):
                        if not b.lam or b.u in self.S:
                            continue
                        if self.inside(b, g):
                            continue
                        self.S[b.u] = (h, n)
                        st.append(b)

    def inside(self, b, g):
        """was lambda b created while body g runs (in g, or in a lambda created in g)?"""
        for _ in range(10):
            x = self.born.get(b.u)
            if x is None:
                return False
            if x[0].u == g.u:
                return True
            b = x[0]
        return False

    def region(self, g):
        out = [g]
        for u, (f, n) in self.born.items():
            b = self.P.fns.get(u)
            if b is not None and b is not g and self.inside(b, g):
                out.append(b)
        return out

    # ------------------------------------------------------------ sharing
    def local_ids(self, reg):
        ids = set()
        for h in reg:
            for p in h.p:
                ids.add(p["d"].id)
            for n in h.walk():
                nd = h.N[n]
                if nd["k"] == "var" and nd.get("d") is not None and nd["d"].sc == "local":
                    ids.add(nd["d"].id)
                    for b in nd.get("b") or ():
                        ids.add(b.id)
        return ids

    def captures(self, g):
        """decl id -> captured by reference? for g and what lies around it"""
        out = {}
        x = self.born.get(g.u)
        if x is None:
            return out
        f, n = x
        for c in f.N[n].get("cap") or ():
            if c.get("d") is not None:
                out[c["d"].id] = bool(c.get("r"))
        return out

    def shared(self, h, n, ids, caps):
        """root key when node n designates state shared by all threads that run the body"""
        nd = h.N[n]
        d = nd.get("d")
        if nd["k"] == "ref" and d is not None and d.k in ("var", "parm", "bind") and d.sc not in ("global", "member", "slocal") and d.id not in ids:
            if d.tls:
                return None
            if not caps.get(d.id, True):
                t = d.t
                if t is None or not (t.ptr or "&" in t.s):
                    if not (t is not None and "*" in t.s and t.s.startswith(("std::pair<", "std::tuple<"))):
                        return None         # its own copy (constant in a const operator())
            return ("v", d.id, d.n)
        if nd["k"] == "mem" and d is not None and d.k == "field" and nd.get("c"):
            o = h.N[memo.unwrap(h, nd["c"][0])]
            if o["k"] == "this":
                return ("f", memo.strip(d.c or "") + "::" + d.n, d.n)
        return None

    # ------------------------------------------------------------ privacy
    def private(self, h, n, g, depth=0):
        """canonical text of an index expression that is different in every iteration, or None"""
        n = memo.unwrap(h, n)
        if n is None or n < 0 or depth > 6:
            return None
        nd = h.N[n]
        k = nd["k"]
        if k == "ref" and nd.get("d") is not None:
            d = nd["d"]
            if d.k == "parm":
                if h.u == g.u and g.u in self.S:
                    return "p%d" % next((i for i, p in enumerate(h.p) if p["d"] is d), -1) if any(p["d"] is d for p in h.p) else None
                # parameter of a helper: every call must pass a private index
                i = next((i for i, p in enumerate(h.p) if p["d"] is d), None)
                if i is None:
                    b = self.born.get(h.u)
                    return self.private_decl(b[0], d, g, depth) if b is not None else None
                out = set()
                for r in self.region(g):
                    for m in r.walk():
                        rn = r.N[m]
                        if rn["k"] == "call" and any(x.u == h.u for x in self.C.bodies(r, m)):
                            a = cs(rn)[1:]
                            out.add(self.private(r, a[i], g, depth + 1) if i < len(a) else None)
                return next(iter(out)) if len(out) == 1 else None
            return self.private_decl(h, d, g, depth)
        if k == "bin" and nd.get("o") in ("+", "-") and len(cs(nd)) == 2:
            a, b = cs(nd)
            x = self.private(h, a, g, depth + 1)
            v = h.N[memo.unwrap(h, b)]
            if x is not None and v["k"] == "int":
                return "%s%s%s" % (x, nd["o"], v.get("v"))
            return None
        if k in ("call", "mem") and nd.get("d") is not None and nd["d"].n in ("first", "second", "index") and cs(nd):
            x = self.private(h, cs(nd)[0], g, depth + 1)
            return x + "." + nd["d"].n if x is not None else None
        if k == "call" and nd.get("d") is not None and nd["d"].n in ("fetch_add", "fetch_sub"):
            return "ticket"
        if k == "un" and nd.get("o") in ("post++", "++") and cs(nd):
            t = h.N[cs(nd)[0]].get("t")
            if locks.sync(t):
                return "ticket"
        if k == "call" and nd.get("o") in ("post++", "++") and cs(nd) and locks.sync(h.N[cs(nd)[0]].get("t")):
            return "ticket"
        return None

    def private_decl(self, h, d, g, depth):
        """a local all of whose definitions are private"""
        out = set()
        for r in self.region(g):
            for m in r.walk():
                rn = r.N[m]
                if rn["k"] == "var" and rn.get("d") is d:
                    c = cs(rn)
                    out.add(self.private(r, c[-1], g, depth + 1) if c else None)
                elif rn["k"] == "asg" and r.N[memo.unwrap(r, rn["c"][0])].get("d") is d:
                    out.add(self.private(r, rn["c"][1], g, depth + 1) if rn.get("o") in ("=", None) else None)
                elif rn["k"] == "un" and rn.get("o") in ("++", "--", "post++", "post--") and r.N[memo.unwrap(r, rn["c"][0])].get("d") is d:
                    out.add(None)
        return next(iter(out)) if len(out) == 1 else None

    # ----------------------------------------------------------- accesses
    def accesses(self, g):
        """[(root, h, node, write, keys, element)] element: None for the whole, '' undetermined, else private text"""
        reg = self.region(g)
        ids = self.local_ids(reg)
        caps = self.captures(g)
        self.alias = {}
        out = []
        for _ in range(3):
            for h in reg:
                self.find_aliases(h, g, ids, caps)
        for h in reg:
            for n in h.walk():
                nd = h.N[n]
                pp = h.parent(n)
                if pp is not None and pp >= 0 and h.N[pp]["k"] == "lambda":
                    continue                        # mere capture
                x = self.shared(h, n, ids, caps)
                if x is not None:
                    e = None
                elif nd["k"] == "ref" and nd.get("d") is not None and nd["d"].id in self.alias:
                    x, e = self.alias[nd["d"].id]
                elif nd["k"] == "call" and nd.get("m") and cs(nd) and h.N[memo.unwrap(h, cs(nd)[0])]["k"] == "this":
                    x, e = ("f", "this", "this"), None
                    a = self.thiscall(h, n, nd, g)
                    if a is not None:
                        out.extend((r, h, n, w, self.keys(h, n, g, ids), None) for r, w in a)
                    continue
                else:
                    continue
                if self.sync(h, n, x):
                    continue
                w, el = self.use(h, n, e, g)
                if w is None:
                    continue
                out.append((x, h, n, w, self.keys(h, n, g, ids), el))
        return out

    def sync(self, h, n, x):
        nd = h.N[n]
        t = nd.get("t") or (nd["d"].t if nd.get("d") is not None else None)
        return locks.sync(t)

    def keys(self, h, n, g, ids):
        """locks held at n that all threads contend for"""
        ks = set(self.L.at(h, n))
        x = h
        for _ in range(6):
            if x.u == g.u:
                break
            # a helper lambda: what every call of it in the region holds
            cl = [self.L.at(r, m) for r in self.region(g) for m in r.walk()
                  if r.N[m]["k"] == "call" and r.u != x.u and any(b.u == x.u for b in self.C.bodies(r, m))]
            if cl:
                ks |= frozenset.intersection(*map(frozenset, cl))
            x = self.born[x.u][0] if x.u in self.born else g
        return frozenset(k for k in ks if not (k is None or k[0] == "v" and k[1] in ids))

    def find_aliases(self, h, g, ids, caps):
        for n in h.walk():
            nd = h.N[n]
            if nd["k"] != "var" or nd.get("d") is None or nd["d"].sc != "local" or nd["d"].id in self.alias:
                continue
            d = nd["d"]
            t = d.t
            c = cs(nd)
            if t is None or not c:
                continue
            ptr = "*" in t.s or "iterator" in t.s
            if not ("&" in t.s or ptr) or t.const and False:
                continue
            r = self.path(h, c[-1], g, ids, caps)
            if r is not None and not (ptr and "&" not in t.s and h.N[memo.unwrap(h, c[-1])]["k"] == "ref" and
                                      not (r[2] or "*" in h.N[memo.unwrap(h, c[-1])]["d"].t.s)):
                self.alias[d.id] = (r[0], r[1])

    def path(self, h, n, g, ids, caps, depth=0):
        """(root, element, indirect) of an lvalue expression, or None"""
        n = memo.unwrap(h, n)
        if n is None or n < 0 or depth > 10:
            return None
        nd = h.N[n]
        x = self.shared(h, n, ids, caps)
        if x is not None:
            return x, None, False
        k = nd["k"]
        c = cs(nd)
        if k == "ref" and nd.get("d") is not None and nd["d"].id in self.alias:
            return self.alias[nd["d"].id] + (True,)
        if k == "idx" and c or k == "call" and nd.get("d") is not None and nd["d"].n in ("operator[]", "at") and len(c) == 2:
            r = self.path(h, c[0], g, ids, caps, depth + 1)
            if r is None:
                return None
            return r[0], self.element(h, c[0], c[1], g), True
        if k in ("mem", "dmem", "dref") and c or k == "un" and nd.get("o") in ("*", "&") and c:
            r = self.path(h, c[0], g, ids, caps, depth + 1)
            return r and (r[0], r[1], True)
        if k == "call" and nd.get("d") is not None and c and (nd.get("o") in ("*", "->") or nd["d"].n in ELEM):
            r = self.path(h, c[0], g, ids, caps, depth + 1)
            return r and (r[0], r[1] if r[1] is not None else "", True)
        return None

    def element(self, h, o, i, g):
        t = h.N[memo.unwrap(h, o)].get("t")
        s = t.s.replace("const ", "").replace("&", "").strip() if t is not None else ""
        if s.startswith("std::vector<bool"):
            return ""
        if not (s.startswith(SEQ) or "*" in s or "[" in s):
            return ""
        p = self.private(h, i, g)
        return p if p is not None else ""

    def use(self, h, n, e, g):
        """(written?, element) for the use of the shared thing designated by node n; (None,None) when its uses are counted elsewhere"""
        prev, p = n, h.parent(n)
        deref = False
        while p is not None and p >= 0:
            pn = h.N[p]
            k = pn["k"]
            c = cs(pn)
            t = pn.get("t")
            if k in ("mem", "call", "un", "idx") and c and c[0] == prev and locks.sync(t) and not pn.get("o") in ("=",):
                return None, None
            if k in ("cast", "dmem", "dref") or k == "mem" and c and c[0] == prev or k == "un" and pn.get("o") in ("*", "&"):
                prev, p = p, h.parent(p)
                continue
            if k == "idx" and c[0] == prev or k == "call" and pn.get("d") is not None and pn["d"].n in ("operator[]", "at") and len(c) == 2 and \
                    c[0] == prev:
                pe = self.element(h, prev, c[1], g)
                t0 = h.N[memo.unwrap(h, prev)].get("t")
                if t0 is not None and ("map<" in t0.s) and pn["d"] is not None and pn["d"].n == "operator[]" and "const" not in t0.s.split("<")[0]:
                    return True, ""
                e = pe if e is None else e
                prev, p = p, h.parent(p)
                continue
            if k == "call" and pn.get("o") in ("*", "->") and c[0] == prev:
                deref = True
                prev, p = p, h.parent(p)
                continue
            if k == "call" and pn.get("m") and c and c[0] == prev and pn.get("d") is not None and pn["d"].n in ELEM and \
                    not (self.P.targets(h, pn)):
                e = "" if e is None else e
                prev, p = p, h.parent(p)
                continue
            break
        if p is None or p < 0:
            return False, e
        pn = h.N[p]
        k = pn["k"]
        c = cs(pn)
        if k == "var" and pn.get("d") is not None and pn["d"].id in self.alias:
            return None, None
        if k == "asg" or k == "call" and pn.get("o") in ("=", "+=", "-=", "*=", "/=", "|=", "&=", "^=", "<<=", ">>=", "%="):
            if c[0] != prev:
                return False, e
            if k == "call" and pn.get("o") != "=":
                w = self.callwrites(h, pn, 0)
                return (True if w is None else w), e
            return True, e
        if k == "un" or k == "call" and pn.get("o") in ("++", "--", "post++", "post--"):
            return pn.get("o") in ("++", "--", "post++", "post--"), e
        if k in ("call", "ctor") and pn.get("d") is not None:
            if pn.get("o") == "()" and c[0] == prev:
                return False, e                         # a function object: its body is judged by itself
            i = c.index(prev) if prev in c else None
            if i is None:
                return False, e
            if pn.get("m") and i == 0:
                if pn["d"].co or pn.get("ce"):
                    return False, e
                w = self.callwrites(h, pn, 0)
                if w is None:
                    return pn["d"].n not in effects.ACCESSOR, e
                return w, e
            j = i - (1 if pn.get("m") else 0)
            ps = pn["d"].p or ()
            if 0 <= j < len(ps) and ps[j] is not None:
                s = ps[j].s
                if ("&" in s and "&&" not in s and not s.startswith("const ") and not ps[j].const) or \
                        ("*" in s and not s.startswith("const ")):
                    w = self.callwrites(h, pn, j + 1)
                    if w is None:
                        return (pn["d"].n in effects.MUT), e
                    return w, e
                if "&&" in s and pn["d"].n not in ("forward", "move", "get") and h.N[prev].get("k") == "call" and \
                        h.N[prev].get("d") is not None and h.N[prev]["d"].n == "move":
                    return True, e
        return False, e

    def callwrites(self, h, pn, i):
        """does a call write its object (i=0) or its i-th argument directly? None: no body"""
        tg = self.P.targets(h, pn)
        if not tg or self.E is None:
            return None
        known = False
        for t in tg:
            if t.u not in self.E.W:
                continue
            known = True
            for (r, s) in self.E.W[t.u]:
                if i == 0 and r[0] != "t" or i > 0 and not (r[0] == "p" and r[1] == i - 1):
                    continue
                if "*" in s or "…" in s:
                    continue
                return True
        return False if known else None

    def thiscall(self, h, n, nd, g):
        """fields of the enclosing object a member function writes"""
        if self.E is None or nd.get("d") is None:
            return None
        out = []
        for t in self.P.targets(h, nd):
            for (r, s), site in (self.E.W.get(t.u) or {}).items():
                if r[0] != "t" or not s or "*" in s or "…" in s:
                    continue
                fld = s[0]
                name = fld if isinstance(fld, str) else fld.n
                out.append((("f", memo.strip(t.c or "") + "::" + name, name), True))
            for name in self.mutables(t):
                out.append((("f", memo.strip(t.c or "") + "::" + name, name), True))
        return out

    def mutables(self, t):
        """mutable fields of *this that t, or what it calls on *this, writes without any lock"""
        out, seen, st = set(), set(), [t]
        while st:
            g = st.pop()
            if g.u in seen:
                continue
            seen.add(g.u)
            for (r, s), n in self.E.MU.get(g.u, ()):
                if r[0] == "t" and s and not isinstance(s[0], str) and s[0].mu and not locks.sync(s[0].t) and not self.L.at(g, n):
                    out.add(s[0].n)
            for n in g.walk():
                nd = g.N[n]
                if nd["k"] == "call" and nd.get("m") and cs(nd) and g.N[memo.unwrap(g, cs(nd)[0])]["k"] == "this" and not self.L.at(g, n):
                    st.extend(self.P.targets(g, nd))
        return out


def analyse(P, E=None, rep=None):
    E = E or effects.Eff(P)
    M = Model(P, E)
    found = []
    cnt = {"thread starts": M.starts, "concurrently run function objects": 0, "accesses to shared variables": 0, "writes": 0,
           "writes under a lock": 0, "writes to private elements": 0}
    done = set()
    for u in sorted(M.S):
        g = P.fns.get(u)
        if g is None or not g.lam:
            continue
        cnt["concurrently run function objects"] += 1
        by = defaultdict(list)
        for a in M.accesses(g):
            by[a[0]].append(a)
        for x, acc in sorted(by.items(), key=lambda z: str(z[0])):
            cnt["accesses to shared variables"] += len(acc)
            ws = [a for a in acc if a[3]]
            if not ws:
                continue
            cnt["writes"] += len(ws)
            common = frozenset.intersection(*[a[4] for a in acc])
            if common:
                cnt["writes under a lock"] += len(ws)
                if rep is not None:
                    rep.sample("%s:%s %s under its lock" % (g.f, g.l, x[2]))
                continue
            els = {a[5] for a in acc if a[5] is not None or a[3]}
            if len(els) == 1 and next(iter(els)):
                cnt["writes to private elements"] += len(ws)
                if rep is not None:
                    rep.sample("%s:%s %s at the iteration's own element" % (g.f, g.l, x[2]))
                continue
            bad = [a for a in ws if not a[4]] or [a for a in acc if not a[4]] or ws
            if len(els) > 1 or "" in els:
                bad = [a for a in bad if not a[5]] or bad
            a = bad[0]
            k = (a[1].f, a[1].line(a[2]) if hasattr(a[1], "line") else a[2], x[2])
            if k in done:
                continue
            done.add(k)
            found.append((a[1], a[2], "race:" + x[2], "%s %s, which other threads running this code %s at the same time, without a lock they all take" %
                          ("writes" if a[3] else "reads", x[2], "use" if a[3] else "write")))
        for h in M.region(g):
            split(M, g, h, found, done)
    return found, cnt


def split(M, g, h, found, done):
    """an atomic of the surrounding code stored a value computed from an earlier load"""
    ids = M.local_ids(M.region(g))
    loads, stores = defaultdict(list), []
    for n in h.walk():
        nd = h.N[n]
        d = nd.get("d")
        if nd["k"] not in ("ref", "mem") or d is None or not locks.sync(d.t) or "atomic" not in d.t.s or d.id in ids:
            continue
        p = h.parent(n)
        if p is None or p < 0:
            continue
        pn = h.N[p]
        pd = pn.get("d")
        if pn["k"] == "call" and pd is not None and pn["c"][0] == n:
            if pd.n in ("store", "operator=") or pn.get("o") == "=":
                stores.append((d, p, pn["c"][1] if len(pn["c"]) > 1 else None))
            elif pd.n == "load" or pd.k == "conv":
                loads[d.id].append(p)
    for d, p, v in stores:
        if v is None or not loads.get(d.id):
            continue
        src, work, vs = set(), [v], set()
        while work:
            for z in h.subtree(work.pop()):
                src.add(z)
                zd = h.N[z].get("d")
                if h.N[z]["k"] == "ref" and zd is not None and zd.id not in vs and zd.k == "var":
                    vs.add(zd.id)
                    for w in h.walk():
                        wn = h.N[w]
                        if wn["k"] == "var" and wn.get("d") is zd and cs(wn):
                            work.append(cs(wn)[-1])
                        elif wn["k"] == "asg" and h.N[memo.unwrap(h, wn["c"][0])].get("d") is zd:
                            work.append(wn["c"][1])
        for x in loads[d.id]:
            if x in src and not (M.keys(h, x, g, ids) & M.keys(h, p, g, ids)):
                k = (h.f, p, d.n)
                if k not in done:
                    done.add(k)
                    found.append((h, p, "split:" + d.n, "stores into the atomic %s a value computed from an earlier load of it: an update made in "
                                  "between by another thread is lost" % d.n))
                break


def run(pid):
    rep = Report(pid, RULE)
    S = selftest.program("bodies")
    found, _ = analyse(S)
    hit = {p for f, n, k, t in found for p in memo.strip(f.q).replace("(", "::").split("::") if p.startswith(("bad", "good"))}
    names = {p for f in S.fns.values() for p in memo.strip(f.q).replace("(", "::").split("::") if p.startswith(("bad", "good"))}
    want = {n for n in names if n.startswith("bad")}
    good = {h for h in hit if h.startswith("good")}
    rep.selftest("planted defects are found: " + ", ".join(sorted(want)), len(want) > 8 and want <= hit or print("missed", want - hit))
    rep.selftest("correct variants are quiet", not good or print("noise", good))
    P = facts.load()
    found, cnt = analyse(P, None, rep)
    for k, v in cnt.items():
        rep.count(k, v)
    rep.floor("thread starts", 1)
    rep.floor("concurrently run function objects", 8)
    rep.floor("accesses to shared variables", 20)
    rep.floor("writes", 4)
    for f, n, k, t in found:
        rep.find("%s|%s" % (memo.strip(f.q), k), f.loc(n) if n is not None else "%s:%s" % (f.f, f.l), "%s: %s" % (memo.strip(f.q), t))
    return rep.finish()
