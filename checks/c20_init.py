"""C20: no value is read before it is set."""
import re
from sqlib import facts, flow, memo, must, selftest
from sqlib.report import Report

TECHNIQUE = ("definite-assignment dataflow over the CFG for every local of scalar, enumeration, pointer, array or plain aggregate type, and "
             "an initialisation audit of every constructor of every class (member initialisers, default member initialisers, body), "
             "including the order in which members are initialised")
NOTE = ("Elements of arrays are not told apart. Passing a variable by non-const reference or pointer counts as setting it. Storage obtained "
        "from the heap without construction is outside the analysis.")
RULE = ("A local of scalar, enumeration, pointer or array type (or a plain aggregate leaving such a member unset) declared without a value "
        "is assigned on every path before it is read, copied or returned. Every constructor gives every member of such type a value "
        "(default member initialiser, member initialiser, or assignment on every path of its body, also in member functions it always "
        "calls); a class whose implicit default constructor does not is never default-initialised without all members being assigned "
        "before the object is used. No member initialiser reads a member that is initialised later.")


def scalar(t):
    return t is not None and not t.ref and bool(t.integer or t.floating or t.boolean or t.enum or t.ptr)


SC = re.compile(r"^(const )?(bool|char|wchar_t|char\d+_t|(un)?signed( (char|int|long|short|long long))?|int|short|long|long long|float|double|"
                r"long double|unsigned long( long)?|std::size_t|size_t|std::u?int\d+_t|u?int\d+_t|std::byte)$")


def elem_scalar(s):
    return bool(SC.match(s.strip())) or s.strip().endswith("*")


def array_of_scalar(t):
    if t is None or t.ref:
        return False
    s = t.s
    m = re.match(r"^(const )?std::array<(.*),\s*\d+(UL)?>$", s)
    if m:
        return elem_scalar(m.group(2))
    m = re.match(r"^(.*?)\s*\[\d+\]$", s)
    return bool(m) and elem_scalar(m.group(1))


class Model:
    def __init__(self, P):
        self.P = P
        self.rec = {}
        for c in P.clss:
            if not c.dep and c.ty is not None:
                self.rec.setdefault(c.ty.s.replace("const ", ""), c)
        self._bare = {}
        self.ctors = {}
        for f in P.fns.values():
            if f.fk in ("ctor", "copy", "move") and f.ct is not None:
                self.ctors.setdefault(f.ct.s.replace("const ", ""), []).append(f)
        self._sets = {}

    def cls(self, t):
        if t is None or t.ref or t.ptr:
            return None
        return self.rec.get(t.s.replace("const ", ""))

    # ------------------------------------------- members a default initialisation leaves unset
    def bare(self, c, depth=0):
        """fields left unset by default-initialising (without braces) an object of class c"""
        k = id(c)
        if k in self._bare:
            return self._bare[k]
        self._bare[k] = []
        if c.lam or not self.ours(c):
            return []
        user = [m for m in c.methods if m.get("ck") == "default" or (m.get("ck") == "ctor" and self.isdefault(m))]
        # an own default constructor is judged where it is defined
        for m in user:
            if not m.get("imp") and not m.get("df"):
                return []
        if any(m.get("ck") in ("ctor",) and not m.get("imp") and not m.get("df") for m in c.methods) and not user:
            return []           # cannot be default-initialised
        out = []
        for fd in c.fields:
            if fd.get("in") or fd.get("d") is None:
                continue
            t = fd["t"]
            if t is not None and t.const:
                pass
            if scalar(t) or array_of_scalar(t):
                out.append(fd["d"])
            elif depth < 4:
                k2 = self.cls(t)
                if k2 is not None and self.bare(k2, depth + 1):
                    out.append(fd["d"])
        self._bare[k] = out
        return out

    def isdefault(self, m):
        d = m.get("d")
        f = self.P.fns.get(m["u"])
        if f is not None:
            return all(p.get("df") is not None for p in f.p)
        return False

    def ours(self, c):
        return (c.f or "").startswith("SeQuant")

    def unset(self, t):
        """tracked parts of an object of type t declared without a value: None for the whole"""
        if scalar(t) or array_of_scalar(t):
            return [None]
        c = self.cls(t)
        if c is not None:
            return self.bare(c)
        return []

    # ------------------------------------------- fields a member function certainly sets
    def sets(self, f, depth=0):
        if f.u in self._sets:
            return self._sets[f.u]
        self._sets[f.u] = frozenset()
        if not f.g or depth > 4:
            return frozenset()
        gen = {}
        for n in f.walk():
            g = self.field_sets(f, n, depth)
            if g:
                gen[n] = g
        r = must.at_exit(f, gen, once=False)
        self._sets[f.u] = r or frozenset()
        return self._sets[f.u]

    def field_sets(self, f, n, depth=0):
        nd = f.N[n]
        if nd["k"] == "asg" and nd.get("o") == "=" and len(nd["c"]) == 2:
            d = own(f, nd["c"][0])
            if d is not None:
                return {d}
        if nd["k"] == "call" and nd.get("o") == "=" and len(nd["c"]) == 2:
            u = memo.unwrap(f, nd["c"][0])
            d = own(f, nd["c"][0])
            if d is not None:
                return {d}
            if f.N[u]["k"] == "un" and f.N[u].get("o") == "*" and f.N[memo.unwrap(f, f.N[u]["c"][0])]["k"] == "this":
                return set(self.all_fields(f))
        if nd["k"] == "call" and nd.get("m") and nd.get("c"):
            u = memo.unwrap(f, nd["c"][0])
            if f.N[u]["k"] == "this":
                out = None
                for g in self.P.targets(f, n):
                    s = self.sets(g, depth + 1)
                    out = s if out is None else out & s
                r = set(out or ())
            else:
                r = set()
                d = own(f, nd["c"][0])
                if d is not None and nd.get("d") is not None and not nd["d"].co:
                    r.add(d)
            return r | self.arg_sets(f, nd)
        if nd["k"] == "call":
            return self.arg_sets(f, nd)
        if nd["k"] == "un" and nd.get("o") == "&":
            d = own(f, nd["c"][0])
            return {d} if d is not None else set()
        return set()

    def arg_sets(self, f, nd):
        """handed to something that may set it"""
        out = set()
        for i, a in enumerate(nd["c"]):
            d = own(f, a)
            if d is not None and byref(nd, i):
                out.add(d)
        return out

    def all_fields(self, f):
        c = self.cls(f.ct)
        return [x.get("d") for x in c.fields] if c is not None else []


def own(f, n):
    """the field of this object that expression n denotes"""
    u = memo.unwrap(f, n)
    while f.N[u]["k"] in ("idx",) or f.N[u]["k"] == "call" and f.N[u].get("d") is not None and f.N[u]["d"].n in ("operator[]", "at", "data",
                                                                                                                "begin", "end", "get"):
        if not f.N[u].get("c"):
            return None
        u = memo.unwrap(f, f.N[u]["c"][0])
    nd = f.N[u]
    if nd["k"] == "mem" and nd.get("d") is not None and nd["d"].k == "field":
        b = memo.unwrap(f, nd["c"][0]) if nd.get("c") else None
        if b is None or f.N[b]["k"] == "this":
            return nd["d"]
        return own(f, nd["c"][0])
    return None


def byref(nd, i):
    """is argument i of the call bound to something that may write through it?"""
    d = nd.get("d")
    if d is None:
        return True
    if nd["k"] == "call" and nd.get("m"):
        if i == 0:
            return False
        i -= 1
    if nd["k"] == "call" and nd.get("o") == "()" and not nd.get("m"):
        i -= 1
    if d.p is None or i >= len(d.p) or i < 0:
        return bool(getattr(d, "vr", False))
    t = d.p[i]
    return t is not None and (t.lref and not t.const and not t.s.startswith("const ") or t.ptr)


# ------------------------------------------------------------- locals
def tracked(M, f):
    out = {}
    for n in f.walk():
        nd = f.N[n]
        if nd["k"] != "var":
            continue
        d = nd["d"]
        if d.sc in ("slocal", "global", "member") or nd.get("b"):
            continue
        par = f.parent(n)
        if par is not None and par >= 0:
            pk = f.N[par]["k"]
            if pk == "rfor" or pk == "catch":
                continue
            if pk == "decl":
                pp = f.parent(par)
                if pp is not None and pp >= 0 and f.N[pp]["k"] in ("rfor", "catch"):
                    continue
        c = nd.get("c")
        if c:
            i = memo.unwrap(f, c[0])
            ind = f.N[i]
            if not (ind["k"] == "ctor" and not ind.get("c") and not ind.get("zi") and not ind.get("li") and ind.get("d") is not None and
                    ind["d"].ck == "default"):
                continue
        t = nd.get("t") or d.t
        u = M.unset(d.t)
        if u:
            out[d] = (n, u)
    return out


def usage(f, n):
    """how the object denoted by node n is used: 'read', 'write', 'both', 'none'"""
    p = f.parent(n)
    prev = n
    while p is not None and p >= 0:
        nd = f.N[p]
        k = nd["k"]
        if k == "cast":
            if nd.get("t") is not None and nd["t"].s == "void":
                return "none"
            prev, p = p, f.parent(p)
            continue
        if k == "idx" and nd["c"][0] == prev:
            prev, p = p, f.parent(p)
            continue
        if k == "call" and nd.get("d") is not None and nd["d"].n in ("operator[]", "at", "data", "begin", "end", "front", "back") and \
                nd["c"] and nd["c"][0] == prev:
            prev, p = p, f.parent(p)
            continue
        break
    if p is None or p < 0:
        return "none"
    nd = f.N[p]
    k = nd["k"]
    i = nd["c"].index(prev) if nd.get("c") and prev in nd["c"] else 0
    if k in ("sizeof", "typeid"):
        return "none"
    if k == "asg":
        if i == 0:
            return "write" if nd.get("o") == "=" else "both"
        return "read"
    if k == "call" and nd.get("o") in ("=",) and i == 0:
        return "write"
    if k == "un":
        o = nd.get("o")
        if o == "&":
            return "write"
        if o in ("++", "--", "post++", "post--"):
            return "both"
        return "read"
    if k == "ctor" and nd.get("d") is not None and nd["d"].ck in ("copy", "move"):
        return "read"
    if k in ("call", "ctor"):
        if k == "call" and nd.get("m") and i == 0:
            d = nd.get("d")
            return "read" if d is None or d.co or nd.get("ce") else "write"
        if k == "call" and nd.get("o") in (">>", "+=", "-=", "*=", "|=", "&=", "++", "--") and byref(nd, i):
            return "write" if nd.get("o") == ">>" else "both"
        return "write" if byref(nd, i) else "read"
    if k == "var":
        d = nd["d"]
        if nd.get("b"):
            return "write"
        if d.t is not None and d.t.ref:
            return "write" if not d.t.s.startswith("const ") else "read"
        return "read"
    if k == "rfor":
        return "write"
    if k in ("block", "nop", "decl", "switch" if i else "nop"):
        return "none" if k != "switch" else "read"
    if k == "lambda":
        return "none"
    if k == "ret":
        return "write" if f.t is not None and f.t.ref else "read"
    return "read"


def whole(f, n):
    """node of the reference and the member of the variable it selects (None: the whole object)"""
    p = f.parent(n)
    if p is not None and p >= 0 and f.N[p]["k"] == "mem" and f.N[p].get("c") and f.N[p]["c"][0] == n and f.N[p].get("d") is not None and \
            f.N[p]["d"].k == "field":
        return p, f.N[p]["d"]
    return n, None


def check_locals(M, f, out, cnt):
    tr = tracked(M, f)
    if not tr:
        return
    cnt["locals declared without a value"] += len(tr)
    decl_at = {n: d for d, (n, u) in tr.items()}
    allk = frozenset((d, x) for d, (n, u) in tr.items() for x in u)
    fills = {}

    def transfer(e, st, report):
        if isinstance(e, list):
            return st
        nd = f.N[e]
        k = nd["k"]
        if e in decl_at:
            d = decl_at[e]
            return frozenset(x for x in st if x[0] is not d)
        if k == "lambda":
            for c in nd.get("cap", ()):
                d = c.get("d")
                if d in tr:
                    if not c.get("r") and report:
                        for x in tr[d][1]:
                            if (d, x) not in st:
                                out.append((f, e, d.n, "'%s' is captured by value before it is given a value" % d.n))
                                break
                    st = st | {(d, x) for x in tr[d][1]}
            return st
        if k == "ref" and nd.get("d") in tr:
            d = nd["d"]
            n, fd = whole(f, e)
            use = usage(f, n)
            keys = [(d, x) for x in tr[d][1] if fd is None or x is fd or x is None]
            if fd is not None and not keys:
                return st
            if use in ("read", "both") and report:
                for key in keys:
                    if key not in st:
                        what = d.n if key[1] is None else "%s.%s" % (d.n, key[1].n)
                        out.append((f, e, d.n, "'%s' may be read before it is given a value" % what))
                        break
            if use in ("both",):
                return st | frozenset(keys)
            if use == "write":
                # an assignment takes effect after its right-hand side: both are evaluated by then in the CFG order used here
                return st
        if k in ("asg", "call", "ctor", "un", "var", "ret", "rfor"):
            add = set()
            for c in (nd.get("c") or ()):
                for x in [c]:
                    r = base_ref(f, x, tr)
                    if r is not None:
                        d, n, fd = r
                        if usage(f, n) in ("write", "both"):
                            add |= {(d, z) for z in tr[d][1] if fd is None or z is fd or z is None}
            if add:
                st = st | add
        return st

    def edge(b, k, st):
        if any(isinstance(e, int) and f.N[e]["k"] == "throw" for e in b["e"]):
            return None
        t = b.get("t")
        if t is not None and t >= 0 and k == 1 and len(b["s"]) == 2 and f.N[t]["k"] in ("for", "while", "rfor"):
            # a loop filling an array element by element has filled it
            if t not in fills:
                fills[t] = frozenset(
                    (f.N[x]["d"], y) for x in f.subtree(t) if f.N[x]["k"] == "ref" and f.N[x].get("d") in tr
                    for y in tr[f.N[x]["d"]][1] if array_of_scalar(f.N[x]["d"].t if y is None else y.t) and
                    usage(f, whole(f, x)[0]) == "write")
            return st | fills[t]
        return st

    inn = flow.solve(f, frozenset(), transfer, edge, lambda a, b: a & b)
    flow.replay(f, inn, transfer)


def base_ref(f, x, tr):
    """(variable, node standing for the used object, member) of an operand"""
    u = x
    while True:
        nd = f.N[u]
        if nd["k"] == "ref" and nd.get("d") in tr:
            n, fd = whole(f, u)
            return nd["d"], n, fd
        if nd["k"] in ("cast", "idx", "mem") and nd.get("c"):
            u = nd["c"][0]
            continue
        if nd["k"] == "call" and nd.get("d") is not None and nd["d"].n in ("operator[]", "at", "data", "begin", "end", "front", "back") and \
                nd.get("c"):
            u = nd["c"][0]
            continue
        if nd["k"] == "un" and nd.get("o") == "&":
            u = nd["c"][0]
            continue
        return None


# ------------------------------------------------------------- constructors
def check_ctors(M, out, cnt):
    P = M.P
    for f in P.fns.values():
        if f.fk not in ("ctor", "copy", "move") or f.ct is None:
            continue
        c = M.cls(f.ct)
        if c is None or c.lam or not M.ours(c):
            continue
        own_fields = [x for x in c.fields if x.get("d") is not None]
        need = {}
        for x in own_fields:
            t = x["t"]
            if x.get("in"):
                continue
            if scalar(t) or array_of_scalar(t):
                need[x["d"]] = x
            else:
                k = M.cls(t)
                if k is not None and M.bare(k):
                    need[x["d"]] = x
        order = {x["n"] for x in own_fields}
        done = set()
        delegating = False
        for i in f.inits:
            if i.get("d") is None and not i.get("b"):
                delegating = True
            d = i.get("d")
            if i.get("e") is not None and i["e"] >= 0:
                for n in f.subtree(i["e"]):
                    nd = f.N[n]
                    if nd["k"] == "mem" and nd.get("d") is not None and nd["d"].n in order and nd.get("c") and \
                            f.N[memo.unwrap(f, nd["c"][0])]["k"] == "this":
                        if nd["d"].n in done or any(f.N[a]["k"] == "lambda" for a in f.ancestors(n)):
                            continue
                        if d is not None and nd["d"].n == d.n and usage(f, n) != "read":
                            continue
                        if usage(f, n) == "read" and nd["d"].n not in done:
                            out.append((f, n, "order|" + nd["d"].n, "member '%s' is read before it is initialised (members are initialised in "
                                        "the order of their declaration)" % nd["d"].n))
            if d is not None:
                done.add(d.n)
        if delegating:
            continue
        if f.imp or f.dflt:
            continue            # what these leave unset is judged where such objects are made
        cnt["constructors audited"] += 1
        cnt["members audited"] += len(need)
        miss = []
        for d, x in need.items():
            i = [z for z in f.inits if z.get("d") is not None and z["d"].n == d.n]
            if i:
                e = i[0].get("e")
                if e is None or e < 0:
                    continue
                en = f.N[memo.unwrap(f, e)]
                k = M.cls(x["t"])
                if k is not None and M.bare(k) and en["k"] == "ctor" and not en.get("c") and not en.get("zi") and not en.get("li") and \
                        not i[0].get("w"):
                    miss.append(d)
                elif array_of_scalar(x["t"]) and en["k"] == "ctor" and not en.get("c") and not en.get("zi") and not en.get("li") and \
                        not i[0].get("w"):
                    miss.append(d)
                continue
            miss.append(d)
        if not miss:
            continue
        s = {x.n for x in M.sets(f)}
        for d in miss:
            if d.n not in s:
                out.append((f, None, "member|" + d.n, "leaves member '%s' without a value" % d.n))
        body_reads(M, f, {d.n for d in miss}, out)


def body_reads(M, f, miss, out):
    def transfer(e, st, report):
        if isinstance(e, list):
            return st
        nd = f.N[e]
        if nd["k"] == "mem" and nd.get("d") is not None and nd["d"].n in miss and nd.get("c") and f.N[memo.unwrap(f, nd["c"][0])]["k"] == "this":
            if report and nd["d"].n not in st and usage(f, e) in ("read", "both"):
                out.append((f, e, "read|" + nd["d"].n, "member '%s' is read before it is given a value" % nd["d"].n))
        g = M.field_sets(f, e)
        return st | (frozenset(x.n for x in g) & miss) if g else st
    inn = flow.solve(f, frozenset(), transfer, lambda b, k, s: s, lambda a, b: a & b)
    flow.replay(f, inn, transfer)


# ------------------------------------------------------------- other default-initialised objects
def check_made(M, f, out, cnt):
    for n in f.walk():
        nd = f.N[n]
        if nd["k"] == "new" and nd.get("t") is not None:
            kids = nd.get("c") or ()
            t = nd["t"].s.rstrip("*& ").replace("const ", "")
            c = M.rec.get(t)
            if c is not None and M.bare(c):
                i = f.N[memo.unwrap(f, kids[-1])] if kids else None
                if i is None or i["k"] == "ctor" and not i.get("c") and not i.get("zi") and not i.get("li"):
                    out.append((f, n, "new|" + t, "creates a %s whose members have no value" % t))


def analyse(P):
    from collections import Counter
    M = Model(P)
    out = []
    cnt = Counter()
    for f in P.fns.values():
        if f.g and f.g.get("bl"):
            cnt["functions analysed"] += 1
            check_locals(M, f, out, cnt)
        check_made(M, f, out, cnt)
    check_ctors(M, out, cnt)
    return out, cnt


def run(pid):
    rep = Report(pid, RULE)
    S = selftest.program("init")
    found, _ = analyse(S)
    hit = {p for f, n, k, t in found for p in memo.strip(f.q).replace("(", "::").split("::") if p.lower().startswith(("bad", "good"))}
    names = {p for f in S.fns.values() for p in memo.strip(f.q).replace("(", "::").split("::") if p.lower().startswith(("bad", "good"))}
    want = {n for n in names if n.lower().startswith("bad")}
    good = {h for h in hit if h.lower().startswith("good")}
    rep.selftest("planted defects are found: " + ", ".join(sorted(want)), len(want) > 12 and want <= hit or print("missed", want - hit))
    rep.selftest("correct variants are quiet", not good or print("noise", good))
    P = facts.load()
    found, cnt = analyse(P)
    for k, v in cnt.items():
        rep.count(k, v)
    rep.floor("functions analysed", 3000)
    rep.floor("constructors audited", 150)
    rep.floor("members audited", 40)
    rep.floor("locals declared without a value", 10)
    for f, n, k, t in found:
        rep.find("%s|%s" % (memo.strip(f.q), k), f.loc(n) if n is not None else "%s:%s" % (f.f, f.l), "%s: %s" % (memo.strip(f.q), t))
    return rep.finish()
