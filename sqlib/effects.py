"""Interprocedural alias and write-effect analysis over access paths.

For every function body the analysis computes
  W(f)  the set of access paths, rooted at a parameter, at *this, at a global or
        at a captured variable, whose object f may modify (directly or through
        what it calls), with the site of the modification, and
  R(f)  what a returned reference/pointer/handle may designate.
Paths are field steps, '*' (what a pointer or smart pointer owns) and '[]'
(an element of a container).  Local references, iterators, views, smart-pointer
copies and structured bindings are resolved to what they alias.
"""
import heapq
import re
from collections import defaultdict

CAP = 5
CTORS = ("ctor", "copy", "move")

POINTERISH = re.compile(
    r"iterator|::span|_view\b|view<|view_|reference_wrapper|string_view|cursor|subrange"
    r"|^ranges::|_range\b|zip_|::pair<.*iterator")
SMART = re.compile(
    r"^(const )?(std::shared_ptr|std::unique_ptr|std::weak_ptr|sequant::ExprPtr|"
    r"std::__shared_ptr|std::optional)")
PURE = re.compile(
    r"^(const )?(sequant::Index|sequant::IndexSpace|std::(__cxx11::)?basic_string|"
    r"std::basic_string|sequant::Complex|boost::multiprecision|sequant::Spin|"
    r"sequant::LabeledIndex)\b")

NOWRITE_TYPES = re.compile(
    r"mutex|atomic|lock_guard|unique_lock|scoped_lock|condition_variable|"
    r"basic_o?string?stream|basic_ostream|basic_ios")

ACCESSOR = {
    "begin", "end", "rbegin", "rend", "cbegin", "cend", "data", "at", "front",
    "back", "operator[]", "operator*", "operator->", "find", "lower_bound",
    "upper_bound", "equal_range", "get", "value", "top", "base", "first",
    "second", "c_str", "nth", "index_of", "find_if", "size", "empty", "count",
    "operator bool", "operator()", "str", "lock", "unlock", "real", "imag",
    "backend", "subspan", "owns_lock", "use_count", "has_value", "value_or",
    "operator==", "operator!=", "operator<", "operator-", "operator+",
    "what", "shared_from_this", "left", "right", "numerator", "denominator", "convert_to",
}
# copies that share nothing with their source (decided separately: clones)
FRESH = {"clone", "_clone", "_clone_shared"}
# accessors that create a missing default on first use (idempotent)
LAZY = {"sequant::get_default_context", "sequant::mbpt::get_default_mbpt_context",
        "sequant::Singleton::instance", "sequant::Singleton::instance_ptr",
        "sequant::Singleton::set_default_instance"}
MUT = {
    "sort", "stable_sort", "reverse", "rotate", "swap", "iter_swap",
    "swap_ranges", "fill", "fill_n", "generate", "iota", "shuffle", "remove",
    "remove_if", "unique", "partition", "stable_partition", "replace",
    "replace_if", "next_permutation", "prev_permutation", "nth_element",
    "partial_sort", "erase", "erase_if", "push_heap", "pop_heap", "make_heap",
    "sort_heap", "exchange", "insert", "push_back", "random_shuffle",
    "inplace_merge", "iter_move", "advance", "resize", "hash_combine",
    "hash_range", "combine",
}
# output goes to the trailing iterator
OUT = {"copy": 1, "copy_if": 1, "transform": 1, "set_union": 1,
       "set_intersection": 1, "set_difference": 1, "merge": 1, "move": 1,
       "partial_sum": 1, "copy_n": 1, "copy_backward": 1, "reverse_copy": 1,
       "replace_copy": 1, "unique_copy": 1, "remove_copy": 1}


_prog = None
_deep = {}
_FLAT_EXT = re.compile(r"^(std::any|std::function|std::(__cxx11::)?basic_string|"
                       r"boost::multiprecision|std::mutex|std::atomic|std::tuple<>|"
                       r"std::bitset|std::allocator|std::char_traits|std::less|"
                       r"std::less_equal|std::equal_to|std::hash|boost::hash)\b")


def deep_type(t):
    """can a copy of a value of this type share state with the original?"""
    if t is None:
        return False
    v = _deep.get(id(t))
    if v is None:
        _deep[id(t)] = False        # recursion: least fixpoint
        v = _deep[id(t)] = _deep_type(t)
    return v


def _deep_type(t):
    if t.ptr:
        return True
    if t.integer or t.floating or t.boolean:
        return False
    r = t.r
    if r is None:
        return "*" in t.s or t.dep
    if smart(t):
        # an optional/shared_ptr of anything: optional holds by value
        if r == "std::optional":
            return any(deep_type(a) for a in t.a) if t.a else True
        return True
    s = t.s[6:] if t.s.startswith("const ") else t.s
    if PURE.match(s) or _FLAT_EXT.match(s):
        return False
    if POINTERISH.search(t.s) and not r.startswith("sequant::"):
        return True
    c = _prog.cls.get(r) if _prog is not None else None
    if c is not None:
        if any(deep_type(f["t"]) or (f["t"] and f["t"].ref) for f in c.fields):
            return True
        if any(deep_type(bt) for _, bt in c.bases):
            return True
        return any(a is not None and deep_type(a) for a in t.a)
    return any(a is not None and deep_type(a) for a in t.a)


def ptr_like(t):
    return t is not None and (t.ptr or bool(POINTERISH.search(t.s)) )


def smart(t):
    if t is None:
        return False
    return bool(SMART.match(t.s.replace("const ", "", 1) if t.s.startswith("const ")
                            else t.s)) or (t.r in ("sequant::ExprPtr", "std::shared_ptr",
                                                   "std::unique_ptr", "std::optional"))


def ext(path, *steps):
    r, s = path
    s = s + steps
    if len(s) > CAP:
        s = s[:CAP] + ("…",)
    elif "…" in s[:-1]:
        s = s[:s.index("…") + 1]
    return (r, s)


class Eff:
    def __init__(self, P, fns=None):
        self.P = P
        global _prog
        _prog = P
        self.W = {}      # u -> {path: site}
        self.MU = {}     # u -> {(path, node)}: direct writes to mutable members
        self.R = {}      # u -> frozenset of (kind, path)
        self.fns = fns or list(P.fns.values())
        self.callers = defaultdict(set)
        self._run()

    # --------------------------------------------------------------- driver
    def _run(self):
        P = self.P
        for f in self.fns:
            self.W[f.u] = {}
            self.R[f.u] = frozenset()
            for nd in f.N:
                if nd["k"] in ("call", "ctor", "rew"):
                    for g in P.targets(f, nd):
                        self.callers[g.u].add(f.u)
                elif nd["k"] == "lambda":
                    for g in P.lambdas_of(nd):
                        self.callers[g.u].add(f.u)
        # callees first: priority = position in a depth-first postorder
        callees = defaultdict(list)
        for g, cs in self.callers.items():
            for c in cs:
                callees[c].append(g)
        prio = {}
        for f in self.fns:
            if f.u in prio:
                continue
            st = [(f.u, iter(callees.get(f.u, ())))]
            seen_here = {f.u}
            prio[f.u] = -1
            while st:
                u, it = st[-1]
                for v in it:
                    if v not in prio:
                        prio[v] = -1
                        st.append((v, iter(callees.get(v, ()))))
                        break
                else:
                    st.pop()
                    prio[u] = len(prio) if prio[u] == -1 else prio[u]
                    self._n = getattr(self, "_n", 0) + 1
                    prio[u] = self._n
        heap = [(prio[f.u], f.u) for f in self.fns]
        heapq.heapify(heap)
        inq = {f.u for f in self.fns}
        n = 0
        cnt = defaultdict(int)
        self.cnt = cnt
        while heap:
            _, u = heapq.heappop(heap)
            f = P.fns[u]
            inq.discard(u)
            n += 1
            cnt[u] += 1
            if cnt[u] > 25:
                continue
            a = FnEff(self, f)
            w, r = a.run()
            if set(w) - set(self.W[u]) or r - self.R[u]:
                for k, v in w.items():
                    self.W[u].setdefault(k, v)
                self.R[u] = self.cap(r | self.R[u])
                for c in self.callers[u]:
                    if c not in inq and c in P.fns:
                        inq.add(c)
                        heapq.heappush(heap, (prio[c], c))
        self.rounds = n

    @staticmethod
    def cap(r):
        if len(r) > 24:
            r = {(kd, (p[0], p[1][:1] + ("…",))) for kd, p in r}
        return frozenset(r)

    def analysis(self, f):
        a = FnEff(self, f)
        a.run()
        return a


class FnEff:
    def __init__(self, E, f):
        self.E, self.P, self.f = E, E.P, f
        self.env = defaultdict(set)
        self.pidx = {p["d"]: i for i, p in enumerate(f.p)}
        self.memo = {}
        self.nmemo = {}
        self.own = set(self.pidx)
        for nd in f.N:
            if nd["k"] == "var":
                self.own.add(nd["d"])
                for b in nd.get("b", ()):
                    if b is not None:
                        self.own.add(b)
                for h in nd.get("hv", ()):
                    self.own.add(f.N[h]["d"])

    # -------------------------------------------------------- environments
    def run(self):
        f = self.f
        N = f.N
        order = list(f.walk())
        for _ in range(3):
            before = sum(len(v) for v in self.env.values())
            self.memo = {}
            self.nmemo = {}
            for x in order:
                nd = N[x]
                k = nd["k"]
                if k == "var":
                    self.bindvar(nd)
                elif k == "rfor":
                    c = nd["c"]
                    if c[0] >= 0 and c[1] >= 0:
                        d = N[c[0]]["d"]
                        vs = set()
                        for kd, p in self.ev(c[1]):
                            if kd == "P":
                                vs.add(("L", p))
                            elif kd in ("L", "C"):
                                vs.add(("L", ext(p, "[]")))
                            elif kd == "H":
                                vs.add((kd, p))
                        if not (d.t and d.t.ref):
                            vs = {("C" if kd == "L" else kd, p) for kd, p in vs
                                  if deep_type(d.t)}
                        self.env[d] |= vs
                        for b in N[c[0]].get("b", ()):
                            self.bindb(N[c[0]], b)
                elif k == "asg" and nd["o"] == "=":
                    self.assign(nd["c"][0], nd["c"][1])
                elif k == "call" and nd.get("o") == "=" and len(nd["c"]) == 2:
                    self.assign(nd["c"][0], nd["c"][1])
            if sum(len(v) for v in self.env.values()) == before:
                break
        self.memo = {}
        self.nmemo = {}
        W = {}
        self.sites = []          # (path, node, why)
        for i in f.inits:
            if i["d"] is not None and i.get("w"):
                pass            # initialisation of a fresh object
        for x in order:
            for p, why in self.writes(x):
                if any(not isinstance(z, str) and z.mu for z in p[1]):
                    # caches (mutable members) are not state
                    self.E.MU.setdefault(f.u, set()).update((q, x) for q in self.norm(p))
                    continue
                for q in self.norm(p):
                    if any(not isinstance(z, str) and z.mu for z in q[1]):
                        continue
                    self.sites.append((q, x, why))
        for q, x, why in self.sites:
            g = self.globalise(q)
            if g is not None:
                if g[0][0] == "g" and f.q in LAZY:
                    continue
                W.setdefault(g, (f.u, x, why))
        R = set()
        if f.t is not None and (f.t.ref or deep_type(f.t)):
            for x in order:
                if N[x]["k"] == "ret" and N[x].get("c"):
                    for kd, p in self.ev(N[x]["c"][0]):
                        for q in self.norm(p):
                            g = self.globalise(q, ret=True)
                            if g is None:
                                continue
                            if not f.t.ref and kd == "L":
                                kd2 = "C"
                            else:
                                kd2 = kd
                            R.add((kd2, g))
        if len(R) > 24:
            R = {(kd, (p[0], p[1][:1] + ("…",))) for kd, p in R}
        if len(W) > 200:
            W2 = {}
            for p, v in W.items():
                W2.setdefault((p[0], p[1][:2] + (("…",) if len(p[1]) > 2 else ())), v)
            W = W2
        return W, frozenset(R)

    def bindvar(self, nd):
        d = nd["d"]
        c = nd.get("c")
        if not c:
            return
        vs = self.ev(c[0])
        if d.t and d.t.ref:
            self.env[d] |= vs
        else:
            self.env[d] |= self.tocopy(vs, d.t)
        for b in nd.get("b", ()):
            self.bindb(nd, b)

    def bindb(self, nd, b):
        if b is None:
            return
        d = nd["d"]
        st = "#%d" % (b.x or 0)
        if d.t and d.t.ref:
            self.env[b] |= {(k if k != "C" else "L", ext(p, st) if k in ("L", "C") else p)
                            for k, p in self.env[d]}
        else:
            self.env[b] |= {("L", (("v", d), (st,)))}

    def tocopy(self, vs, t):
        if not deep_type(t):
            return set()
        out = set()
        for k, p in vs:
            if k == "L":
                if ptr_like(t):
                    # copy of a pointer/iterator/view object, or decay/view of
                    # a container
                    out.add(("C", p))
                else:
                    out.add(("C", p))
            else:
                out.add((k, p))
        return out

    def assign(self, l, r):
        N = self.f.N
        if l < 0 or r < 0:
            return
        ln = N[l]
        t = ln.get("t")
        if not deep_type(t):
            return
        for k, p in self.ev(l):
            if k == "L" and p[0][0] == "v" :
                vs = self.tocopy(self.ev(r), t)
                d = p[0][1]
                self.env[d] |= {v for v in vs if v[1][0] != p[0]}
            elif k == "L" and p[0][0] == "p" and p[1] == ():
                # by-value pointer parameter re-seated
                vs = self.tocopy(self.ev(r), t)
                d = self.f.p[p[0][1]]["d"]
                self.env[d] |= {v for v in vs if v[1][0] != p[0]}

    # ---------------------------------------------------------- evaluation
    def ev(self, n):
        if n is None or n < 0:
            return frozenset()
        m = self.memo.get(n)
        if m is not None:
            return m
        self.memo[n] = frozenset()      # cycles
        try:
            v = frozenset(self._ev(n))
        except RecursionError:
            v = frozenset()
        if len(v) > 40:
            v = frozenset((k, (p[0], p[1][:1] + ("…",))) for k, p in v)
        self.memo[n] = v
        return v

    def deref(self, vs, t):
        out = set()
        for k, p in vs:
            if k == "L":
                for q in self.norm(ext(p, "*")):
                    out.add(("L", q))
            elif k == "C":
                for q in self.norm(ext(p, "*")):
                    out.add(("L", q))
            elif k == "P":
                out.add(("L", p))
            elif k == "H":
                out.add(("H", p))
        return out

    def norm(self, p):
        """resolve a path rooted at a local through what the local aliases"""
        if p[0][0] not in ("v", "p"):
            return (p,)
        m = self.nmemo.get(p)
        if m is None:
            m = self.nmemo[p] = self._norm(p)
        return m

    def _norm(self, p0):
        out = {}
        seen = {p0}
        work = [p0]
        while work:
            p = work.pop()
            (r, s) = p
            if len(seen) > 80:
                s = s[:1] + ("…",) if len(s) > 1 else s
                p = (r, s)
            if r[0] not in ("v", "p"):
                out[p] = 1
                continue
            d = r[1] if r[0] == "v" else self.f.p[r[1]]["d"]
            vals = self.env.get(d)
            if not vals:
                out[p] = 1
                continue
            if r[0] == "p":
                out[p] = 1
            ix = s.index("*") if "*" in s else (s.index("…") if "…" in s else -1)
            if ix < 0:
                out[p] = 1
                continue
            pre, suf = s[:ix], s[ix + 1:]
            hit = False
            for k, q in vals:
                if k == "P":
                    qq = ext(q, *suf)
                elif k in ("C", "L"):
                    qq = ext(q, *(pre + (s[ix],) + suf))
                elif "*" in suf or "…" in suf or s[ix] == "…":
                    qq = ext(q, "*", "…")
                else:
                    continue
                if qq[0] == r:
                    continue
                hit = True
                if len(seen) > 80 and len(qq[1]) > 1:
                    qq = (qq[0], qq[1][:1] + ("…",))
                if qq not in seen:
                    seen.add(qq)
                    work.append(qq)
            if not hit or r[0] == "v":
                out[p] = 1
        return tuple(out)

    def globalise(self, q, ret=False):
        r, s = q
        if r[0] == "p":
            t = self.f.p[r[1]]["t"]
            if t is not None and not t.ref:
                if not ret and "*" not in s and "…" not in s and \
                        not (ptr_like(t) and s):
                    return None
            return q
        if r[0] in ("t", "g", "c"):
            return q
        return None

    def _ev(self, n):
        f = self.f
        nd = f.N[n]
        k = nd["k"]
        t = nd.get("t")
        if k == "ref":
            d = nd["d"]
            if d.k == "parm":
                if d in self.pidx:
                    return {("L", (("p", self.pidx[d]), ()))}
                return {("L", (("c", d), ()))}
            if d.k == "bind":
                if d in self.env:
                    return self.env[d]
                if d not in self.own:
                    return {("L", (("c", d), ()))}
                return set()
            if d.k == "var":
                if d.sc in ("global", "slocal", "member"):
                    return {("L", (("g", d), ()))}
                if d not in self.own:
                    return {("L", (("c", d), ()))}
                if d.t and d.t.ref:
                    vs = set()
                    for kd, p in self.env[d]:
                        vs.add((kd if kd != "C" else "C", p))
                    return vs or {("L", (("v", d), ()))}
                return {("L", (("v", d), ()))}
            return set()
        if k == "this":
            return {("P", (("t",), ()))}
        if k == "mem":
            d = nd["d"]
            if d.k == "var":
                return {("L", (("g", d), ()))}
            if d.k != "field":
                return self.ev(nd["c"][0]) if nd.get("c") else set()
            vs = self.ev(nd["c"][0])
            if nd.get("ar"):
                vs = self.deref(vs, None)
            out = set()
            for kd, p in vs:
                if kd in ("L",):
                    out.add(("L", ext(p, d)))
                elif kd == "C":
                    out.add(("C", ext(p, d)))
                else:
                    out.add((kd, p))
            return out
        if k == "un":
            o = nd["o"]
            vs = self.ev(nd["c"][0])
            if o == "*":
                return self.deref(vs, None)
            if o == "&":
                return {("P" if kd == "L" else kd, p) for kd, p in vs}
            return vs
        if k == "idx":
            out = set()
            for kd, p in self.ev(nd["c"][0]):
                if kd == "P":
                    out.add(("L", p))
                else:
                    out.add((kd, ext(p, "[]")))
            return out
        if k == "cond":
            return self.ev(nd["c"][1]) | self.ev(nd["c"][2])
        if k == "bin":
            if nd["o"] == ",":
                return self.ev(nd["c"][1])
            if ptr_like(t):
                return self.ev(nd["c"][0]) | self.ev(nd["c"][1])
            return set()
        if k == "asg":
            return self.ev(nd["c"][0])
        if k == "cast":
            return self.ev(nd["c"][0])
        if k == "ilist":
            out = set()
            for c in nd["c"]:
                if c >= 0 and deep_type(f.N[c].get("t")):
                    out |= {("C" if kd == "L" else kd, p) for kd, p in self.ev(c)}
            return out
        if k == "ctor":
            return self.ev_ctor(n, nd)
        if k == "call":
            return self.ev_call(n, nd)
        if k == "new":
            out = set()
            for c in nd["c"]:
                out |= {("H", p) for kd, p in self.ev(c)}
            return out
        if k in ("x",):
            out = set()
            for c in nd.get("c", ()):
                out |= self.ev(c)
            return out
        return set()

    def ev_ctor(self, n, nd):
        f = self.f
        d = nd["d"]
        t = nd.get("t")
        if not deep_type(t):
            return set()
        if d.ck in ("copy", "move"):
            return self.tocopy(self.ev(nd["c"][0]), t) if nd["c"] else set()
        out = set()
        for c in nd["c"]:
            if c < 0:
                continue
            ct = f.N[c].get("t")
            if not deep_type(ct):
                continue
            for kd, p in self.ev(c):
                if kd == "L":
                    if smart(t) or ptr_like(t):
                        out.add(("C", p))
                    else:
                        out.add(("C", p))
                else:
                    out.add((kd, p))
        return out

    def argvals(self, nd):
        """(object node or None, [argument nodes])"""
        c = nd["c"]
        if nd.get("m"):
            return (c[0] if c else -1), list(c[1:])
        return None, list(c)

    def subst(self, vals, obj, args, nd, callee):
        """instantiate callee-rooted (kind,path) pairs at a call site"""
        out = set()
        for kd, (r, s) in vals:
            if r[0] in ("g", "c"):
                if r[0] == "c":
                    for b in self.own_root(r[1]):
                        for q in self.norm(ext(b, *s)):
                            out.add((kd, q))
                else:
                    out.add((kd, (r, s)))
                continue
            if r[0] == "t":
                if obj is None or obj < 0:
                    if nd["k"] == "ctor":
                        continue
                    if callee.lam:
                        continue
                    base = set()
                else:
                    base = self.ev(obj)
                    if nd.get("ar"):
                        base = self.deref(base, None)
                    elif self.f.N[obj]["k"] == "this":
                        base = {("L", p) for k2, p in base}
                if callee.lam:
                    # this inside a lambda is the enclosing this
                    base = {("L", (("t",), ()))}
            elif r[0] == "p":
                if r[1] >= len(args) or args[r[1]] < 0:
                    continue
                base = self.ev(args[r[1]])
            else:
                continue
            for k2, p in base:
                if k2 == "L":
                    for q in self.norm(ext(p, *s)):
                        out.add((kd, q))
                elif k2 == "P":
                    if s and s[0] == "*":
                        out.add((kd, ext(p, *s[1:])))
                    else:
                        out.add(("P" if kd == "C" else kd, ext(p, *s)))
                elif k2 == "C":
                    if "*" in s or "…" in s:
                        for q in self.norm(ext(p, *s)):
                            out.add((kd, q))
                    else:
                        out.add(("C" if kd in ("L", "C") else kd, ext(p, *s)))
                elif k2 == "H":
                    if s.count("*") + ("…" in s) >= 2:
                        out.add((kd, ext(p, "*", "…")))
                    else:
                        out.add(("H", p))
        return out

    def own_root(self, d):
        """a captured variable seen from this function"""
        if d in self.pidx:
            return [(("p", self.pidx[d]), ())]
        if d in self.own:
            if d.k == "bind" or (d.t and d.t.ref):
                return [p for kd, p in self.env[d]] or [(("v", d), ())]
            return [(("v", d), ())]
        return [(("c", d), ())]

    def ev_call(self, n, nd):
        f = self.f
        d = nd.get("d")
        t = nd.get("t")
        obj, args = self.argvals(nd)
        if d is not None:
            tg = self.P.targets(f, nd)
            if tg:
                out = set()
                if d.n in FRESH:
                    return set()
                for g in tg:
                    rt = g.t
                    if rt is None or not (rt.ref or deep_type(rt)):
                        continue
                    out |= self.subst(self.E.R.get(g.u, ()), obj, args, nd, g)
                return out
        if t is None or (not nd.get("lv") and not deep_type(t)):
            return set()
        name = d.n if d is not None else ""
        # external
        if obj is not None and obj >= 0 and not (
                d is not None and d.c and ("_fn" in d.c or "::views" in d.c
                                           or d.c.startswith("ranges::"))
                and d.n == "operator()"):
            base = self.ev(obj)
            ot = f.N[obj].get("t")
            if nd.get("ar"):
                base = self.deref(base, None)
            if name in ("operator*", "operator->", "get", "value"):
                if name in ("operator*", "operator->") and not smart(ot):
                    # iterator
                    return {("L" if name == "operator*" else "P", p) for kd, p in
                            self.deref(base, None)} if base else set()
                r = self.deref(base, None)
                if name == "operator->" or (name == "get" and t.ptr):
                    return {("P" if kd == "L" else kd, p) for kd, p in r}
                return r
            if name in ("operator++", "operator--", "operator+=", "operator-=",
                        "operator+", "operator-", "base", "operator=") :
                return base
            out = set()
            if nd.get("lv"):
                for kd, p in base:
                    if kd == "P":
                        out.add(("L", p))
                    elif kd == "L" and ptr_like(ot):
                        out |= self.deref({(kd, p)}, None)
                    else:
                        out.add((kd, ext(p, "[]")))
                return out
            if ptr_like(t):
                for kd, p in base:
                    if kd == "P":
                        out.add(("P", p))
                    elif ptr_like(ot):
                        out |= {("P", q) for _, q in self.deref({(kd, p)}, None)}
                    else:
                        out.add(("P", ext(p, "[]")) if kd != "H" else (kd, p))
                return out
            return {("C" if kd == "L" else kd, p) for kd, p in base}
        # free function / niebloid
        out = set()
        if name == "operator|" and len(args) == 2:
            r = args[1]
            while r >= 0 and f.N[r]["k"] in ("cast", "x") and len(f.N[r].get("c", ())) == 1:
                r = f.N[r]["c"][0]
            v = self.xfview(args[0], f.N[r]) if r >= 0 else None
            if v is not None:
                return v
        if name in ("forward", "move", "as_const", "ref", "cref", "static_pointer_cast",
                    "dynamic_pointer_cast", "const_pointer_cast", "min", "max",
                    "identity", "tie", "forward_as_tuple", "make_pair", "make_tuple",
                    "addressof", "move_if_noexcept"):
            for a in args:
                vs = self.ev(a)
                if name == "addressof":
                    vs = {("P" if kd == "L" else kd, p) for kd, p in vs}
                elif not nd.get("lv") and not (t.rref) and name not in (
                        "forward", "move"):
                    vs = {("C" if kd == "L" else kd, p) for kd, p in vs}
                out |= vs
            return out
        if name in ("make_shared", "make_unique", "allocate_shared", "make_any"):
            for a in args:
                if a >= 0 and deep_type(f.N[a].get("t")):
                    out |= {("H", p) for kd, p in self.ev(a)}
            return out
        for a in args:
            if a < 0 or f.N[a]["k"] == "lambda":
                continue
            at = f.N[a].get("t")
            if not deep_type(at) and not (ptr_like(t) and at is not None and at.r):
                continue
            for kd, p in self.ev(a):
                if nd.get("lv"):
                    # std::get, std::any_cast ... a part of the argument; a
                    # reference out of iterators: their element
                    out.add(("L", p) if kd == "P" else (kd, ext(p, "[]"))
                            if kd == "L" else (kd, p))
                elif ptr_like(t):
                    if kd == "L":
                        if ptr_like(at):
                            out |= {("P", q) for _, q in self.deref({(kd, p)}, None)}
                        else:
                            out.add(("P", ext(p, "[]")))
                    elif kd == "C":
                        out.add(("P", ext(p, "[]")))
                    else:
                        out.add((kd, p))
                else:
                    out.add(("C" if kd == "L" else kd, p))
        return out

    def xfview(self, rng, xf):
        """the view of the images of a range under a lambda"""
        f = self.f
        d = xf.get("d")
        if xf["k"] != "call" or d is None or d.n != "operator()" or not d.c or \
                "transform_fn" not in d.c and "views" not in d.c:
            return None
        if "transform" not in d.c:
            return None
        ls = [c for c in xf["c"] if c >= 0 and f.N[c]["k"] == "lambda"]
        if len(ls) != 1:
            return None
        fns = self.P.lambdas_of(f.N[ls[0]])
        if not fns:
            return None
        el = set()
        for kd, p in self.ev(rng):
            el.add((kd if kd == "H" else "P", p if kd in ("P", "H") else ext(p, "[]")))
        out = set()
        for g in fns:
            if g.t is None:
                return None
            for kd, (r, s) in self.E.R.get(g.u, ()):
                if r[0] == "p" and r[1] == 0:
                    out |= {(k2, ext(p, *s)) for k2, p in el}
                elif r[0] == "c":
                    for b in self.own_root(r[1]):
                        out |= {("P", q) for q in self.norm(ext(b, *s))}
                elif r[0] in ("g", "t"):
                    out.add(("P", (r, s)))
        return out

    # --------------------------------------------------------------- writes
    def lpaths(self, vs):
        for kd, p in vs:
            if kd == "L":
                yield p

    def writes(self, n):
        """paths modified by evaluating node n itself (not its children)"""
        f = self.f
        nd = f.N[n]
        k = nd["k"]
        if k == "asg":
            for p in self.lpaths(self.ev(nd["c"][0])):
                yield p, "assigned"
            return
        if k == "un":
            if nd["o"] in ("++", "--", "post++", "post--"):
                for p in self.lpaths(self.ev(nd["c"][0])):
                    yield p, "incremented"
            return
        if k == "lambda":
            for g in self.P.lambdas_of(nd):
                cap = {c["d"]: c for c in nd["cap"] if "d" in c}
                for (r, s), site in list(self.E.W.get(g.u, {}).items()):
                    if r[0] == "c":
                        c = cap.get(r[1])
                        if c is not None and not c.get("r") and "*" not in s \
                                and "…" not in s:
                            if not (c.get("ic")):
                                continue       # by-copy capture
                            continue
                        for b in self.own_root(r[1]):
                            for q in self.norm(ext(b, *s)):
                                yield q, "in a lambda"
                    elif r[0] in ("t", "g"):
                        yield (r, s), "in a lambda"
            return
        if k == "ctor":
            d = nd["d"]
            for g in self.P.targets(f, nd):
                vals = [("L", p) for p in self.E.W.get(g.u, {})
                        if p[0][0] in ("p", "g")]
                for kd, p in self.subst(vals, None, nd["c"], nd, g):
                    if kd == "L":
                        yield p, "by " + g.q
            return
        if k != "call":
            return
        d = nd.get("d")
        obj, args = self.argvals(nd)
        if d is None:
            return
        tg = self.P.targets(f, nd)
        if tg:
            for g in tg:
                w = self.E.W.get(g.u, {})
                if not w:
                    continue
                vals = [("L", p) for p in w
                        if not (g.fk in CTORS and p[0][0] == "t")]
                for kd, p in self.subst(vals, obj, args, nd, g):
                    if kd in ("L",) or (kd == "P"):
                        yield p, "by " + g.q
            if any(g.b is not None for g in tg):
                return
        name = d.n or ""
        if obj is not None and obj >= 0:
            ot = f.N[obj].get("t")
            nieb = d.c and name == "operator()" and (
                "_fn" in d.c or d.c.startswith(("ranges::", "std::ranges")))
            if nieb:
                if "views::" in d.c or "::view" in d.c:
                    return
                m = re.search(r"(\w+?)_fn", d.c)
                name = m.group(1).lstrip("_") if m else d.c.split("::")[-1]
                yield from self.ext_free(nd, name, args)
                return
            if not d.co and not d.st and d.k != "ctor":
                if d.repo and d.lam:
                    return
                if ot is not None and NOWRITE_TYPES.search(ot.s):
                    return
                if (name in ACCESSOR or d.k == "conv") and not (
                        name == "operator[]" and ot is not None and "map" in ot.s):
                    pass
                elif name == "operator[]" and ot is not None and ot.const:
                    pass
                else:
                    base = self.ev(obj)
                    if nd.get("ar"):
                        base = self.deref(base, None)
                    for p in self.lpaths(base):
                        yield p, "by %s()" % name
            # arguments taken by non-const reference
            yield from self.ext_refs(nd, d, args, name)
            return
        yield from self.ext_free(nd, name, args)

    def ext_refs(self, nd, d, args, name):
        f = self.f
        if name in ("swap",):
            for a in args:
                for p in self.lpaths(self.ev(a)):
                    yield p, "by %s()" % name

    def ext_free(self, nd, name, args):
        f = self.f
        d = nd["d"]
        tgt = None
        if name in MUT:
            tgt = [a for a in args if a >= 0]
            if name == "exchange":
                tgt = tgt[:1]
            if name in ("remove", "erase", "erase_if", "remove_if", "fill", "advance"):
                tgt = tgt[:2]
        elif name in OUT:
            if name == "move" and len(args) == 1:
                return
            its = [a for a in args if a >= 0 and f.N[a]["k"] != "lambda"]
            nonrange = its[1:] if len(its) == 2 else its[2:]
            if name == "transform" and len(its) == 2:
                nonrange = its[1:]
            tgt = nonrange
            if name == "transform" and len(args) <= 2:
                tgt = []
        if tgt is not None:
            for a in tgt:
                if f.N[a]["k"] == "lambda":
                    continue
                at = f.N[a].get("t")
                for kd, p in self.ev(a):
                    if kd == "P":
                        yield p, "by %s()" % name
                    elif kd == "L":
                        if ptr_like(at):
                            for _, q in self.deref({(kd, p)}, None):
                                yield q, "by %s()" % name
                        elif at is None or not at.const:
                            yield p, "by %s()" % name
            return
        # scalar or string output parameters
        ps = d.p or ()
        for i, a in enumerate(args):
            if a < 0 or i >= len(ps) or ps[i] is None:
                continue
            pt = ps[i]
            if pt.lref and not pt.const and (pt.integer or pt.floating) and \
                    name not in ("forward", "min", "max", "get", "tie", "ref",
                                 "make_pair", "make_tuple", "forward_as_tuple",
                                 "emplace", "emplace_back", "as_const", "move",
                                 "make_shared", "invoke", "addressof",
                                 "operator>>", "operator<<"):
                for p in self.lpaths(self.ev(a)):
                    yield p, "by %s()" % name
        # callbacks receive elements of the other arguments
        for a in args:
            if a < 0 or f.N[a]["k"] != "lambda":
                continue
            for g in self.P.lambdas_of(f.N[a]):
                for (r, s) in list(self.E.W.get(g.u, {})):
                    if r[0] != "p":
                        continue
                    for b in args:
                        if b == a or b < 0:
                            continue
                        bt = f.N[b].get("t")
                        for kd, p in self.ev(b):
                            if kd == "P":
                                yield ext(p, *s), "by a callback"
                            elif kd == "L":
                                if ptr_like(bt):
                                    for _, q in self.deref({(kd, p)}, None):
                                        yield ext(q, *s), "by a callback"
                                else:
                                    yield ext(p, *(("[]",) + s)), "by a callback"


def show(p):
    r, s = p
    if r[0] == "p":
        o = "arg%d" % r[1]
    elif r[0] == "t":
        o = "this"
    else:
        o = getattr(r[1], "n", str(r[1]))
    for x in s:
        if isinstance(x, str):
            o += x if x in ("[]",) else ("->" if x == "*" else "." + x)
        else:
            o += "." + x.n
    return o
