"""C19: no use of moved-from, dangling or iterator-invalidated objects."""
import re
from sqlib import effects, facts, flow, memo, selftest
from sqlib.report import Report

TECHNIQUE = ("typestate dataflow over the CFG of every function: objects moved from (until given a new value), references, iterators and views "
             "into a container (until the container is structurally changed), and an escape analysis of references, views and function objects "
             "to locals, parameters and temporaries")
NOTE = ("Decided within one function: a container changed behind a function call is seen only when the call goes to a member function of the "
        "same object whose write effects name it. Correlated branch conditions are not related to each other except for the same tested "
        "variable. Elements of containers are not told apart. Objects kept alive only by reference counts elsewhere are not judged.")
RULE = ("(1) After a variable, parameter or member has been handed to a move constructor, move assignment or rvalue-reference parameter it is not "
        "read on any path before it is given a new value; within one call it is not both moved into a by-value parameter and read by another "
        "argument. (2) A reference, pointer, iterator or view into a container with contiguous or hashed storage is not used after an operation "
        "that may move or remove its elements, nor is such a container changed inside a range-for over it. (3) No function returns a reference, "
        "pointer, view or by-reference-capturing function object to its own local, by-value parameter or to a temporary, and no local "
        "reference or view is bound to part of a temporary that is gone at the end of the statement.")

VIEW = re.compile(r"basic_string_view<|string_view$|std::span<|reference_wrapper|_view<|::view<|transform_view|filter_view|ref_view|subrange<|"
                  r"iterator|initializer_list")
LAZYVIEW = re.compile(r"ranges::.*(_view|view_)|std::ranges::|ranges::ref_view|::transform_view<|::filter_view<|counted_view|zip_")
CONTIG = ("std::vector<", "boost::container::vector<", "boost::container::small_vector<", "boost::container::small_vector_base<",
          "boost::container::static_vector<", "boost::container::flat_map<", "boost::container::flat_set<", "boost::container::flat_multimap<",
          "boost::container::flat_multiset<", "std::basic_string<", "std::__cxx11::basic_string<", "std::deque<", "std::flat_map<",
          "boost::container::devector<", "boost::container::deque<", "boost::container::stable_vector<")
HASHED = ("std::unordered_", "boost::unordered_", "absl::flat_")
NODE = ("std::map<", "std::set<", "std::multimap<", "std::multiset<", "std::list<", "std::forward_list<")
GROW = {"push_back", "emplace_back", "insert", "emplace", "resize", "reserve", "shrink_to_fit", "assign", "append", "push_front", "emplace_front",
        "insert_or_assign", "try_emplace", "merge", "rehash", "emplace_hint", "insert_range", "append_range", "operator+=", "prepend"}
SHRINK = {"erase", "clear", "pop_back", "pop_front", "extract", "erase_if"}
NAV = {"begin", "end", "rbegin", "rend", "cbegin", "cend", "find", "lower_bound", "upper_bound", "data", "operator[]", "at", "front", "back",
       "insert", "emplace", "nth", "c_str", "try_emplace", "emplace_back", "equal_range", "emplace_hint", "insert_or_assign"}
REINIT = {"clear", "assign", "reset", "emplace", "swap", "resize", "store", "str"}
KEEP = {"try_emplace", "get", "forward", "move", "as_const", "tie", "min", "max", "addressof", "forward_as_tuple", "begin", "end", "size",
        "move_if_noexcept", "forward_like", "ref", "cref"}
OWNED = {"clone", "_clone", "deep_copy", "make_shared", "make_unique", "ex"}


def cs(nd):
    return [y for y in nd.get("c", ()) if y is not None and y >= 0]


def bare(t):
    return t.s.replace("const ", "").replace("&", "").strip() if t is not None else ""


def movable(t):
    """is there anything to lose by moving from it?"""
    if t is None:
        return False
    if t.integer or t.floating or t.boolean or t.enum or t.ptr and not t.ref or t.lam:
        return False
    s = bare(t)
    if s.endswith("*") or VIEW.search(s) or LAZYVIEW.search(s):
        return False
    if re.match(r"^(bool|char|wchar_t|int|unsigned|long|short|double|float|std::size_t|size_t|unsigned long|std::bitset|std::pair<(int|bool|unsigned long), "
                r"(int|bool|unsigned long)>|std::nullopt_t|std::byte)\b", s):
        return False
    if s.startswith("const ") or t.const and not t.ref:
        return False
    return True


class Fn:
    def __init__(self, P, E, f):
        self.P, self.E, self.f = P, E, f
        self.par = f.par_map

    def path(self, n):
        """(root, field, ...) of a variable or member expression"""
        f = self.f
        n = memo.unwrap(f, n)
        if n is None or n < 0:
            return None
        nd = f.N[n]
        k = nd["k"]
        d = nd.get("d")
        if k == "ref" and d is not None and d.k in ("var", "parm", "bind") and d.sc not in ("global", "member", "slocal"):
            return (d.id,)
        if k == "this":
            return ("this",)
        if k == "mem" and d is not None and d.k == "field" and cs(nd):
            c = f.N[memo.unwrap(f, cs(nd)[0])]
            p = self.path(cs(nd)[0])
            if p is None or len(p) > 4 or nd.get("ar") and c["k"] != "this":
                return None
            return p + (d.n,)
        if k == "un" and nd.get("o") == "*" and cs(nd) and f.N[memo.unwrap(f, cs(nd)[0])]["k"] == "this":
            return ("this",)
        return None

    def name(self, n):
        f = self.f
        n = memo.unwrap(f, n)
        nd = f.N[n]
        if nd["k"] == "this":
            return "*this"
        if nd["k"] == "mem":
            c = f.N[memo.unwrap(f, cs(nd)[0])]
            return nd["d"].n if c["k"] == "this" else self.name(cs(nd)[0]) + "." + nd["d"].n
        return nd["d"].n if nd.get("d") is not None else "?"

    # -------------------------------------------------------------- moves
    def rvalue(self, n):
        """operand of a std::move / rvalue std::forward / cast to && at n"""
        f = self.f
        n = memo.unwrap(f, n)
        if n is None or n < 0:
            return None
        nd = f.N[n]
        d = nd.get("d")
        if nd["k"] == "call" and d is not None and len(cs(nd)) == 1 and not nd.get("m"):
            if d.n == "move" and (d.q or "").startswith("std::") or d.n == "forward" and not nd.get("lv"):
                return cs(nd)[0]
        return None

    def moves(self, n):
        """[operand nodes] whose contents node n takes"""
        f = self.f
        nd = f.N[n]
        k = nd["k"]
        out = []
        if k == "lambda":
            for c in nd.get("cap") or ():
                e = c.get("e")
                if e is None and c.get("ic") is not None and isinstance(c.get("ic"), int) and not isinstance(c.get("ic"), bool):
                    e = c["ic"]
                if isinstance(e, int) and e >= 0:
                    r = self.rvalue(e)
                    if r is not None and not c.get("r"):
                        out.append(r)
            return out
        if k not in ("ctor", "call") or nd.get("d") is None:
            return out
        d = nd["d"]
        if d.n in KEEP and k == "call":
            return out
        a = cs(nd)
        off = 1 if nd.get("m") else 0
        if k == "call" and nd.get("o") and not nd.get("m") and d.k == "method":
            off = 1
        ps = d.p or ()
        for i, y in enumerate(a):
            r = self.rvalue(y)
            if r is None:
                continue
            if k == "ctor" and nd.get("fk") == "move" or k == "ctor" and d.ck == "move":
                # only the base part
                t, s = nd.get("t"), f.N[memo.unwrap(f, r)].get("t")
                if t is not None and s is not None and bare(t) != bare(s) and not bare(t).startswith("std::"):
                    continue
                out.append(r)
                continue
            j = i - off
            if j < 0:
                continue
            if j >= len(ps):
                if not ps or ps[-1] is None:
                    continue
                j = len(ps) - 1
            t = ps[j]
            if t is None or "&&" not in t.s or t.s.startswith("const "):
                continue
            if nd.get("o") == "=":
                c, s = d.c, f.N[memo.unwrap(f, r)].get("t")
                if c is not None and s is not None and not bare(s).startswith(memo.strip(c)) and memo.strip(c) != memo.strip(bare(s)) and \
                        self.isbase(c, s):
                    continue
                out.append(r)
                continue
            if self.consumes(nd, j):
                out.append(r)
        return out

    def isbase(self, c, t):
        q = memo.strip(bare(t))
        for x in self.P.clss:
            if memo.strip(x.q) == q:
                return any(memo.strip(b[0] if isinstance(b[0], str) else "") == memo.strip(c) or memo.strip(bare(b[1])) == memo.strip(c)
                           for b in x.bases)
        return False

    _cons = {}

    def consumes(self, nd, j):
        """does the callee take the contents of its j-th parameter?"""
        tg = [g for g in self.P.targets(self.f, nd) if g.b is not None]
        if not tg:
            return True
        for g in tg:
            if j >= len(g.p):
                return True
            key = (g.u, j)
            if key not in Fn._cons:
                Fn._cons[key] = False
                F = Fn(self.P, self.E, g)
                pd = g.p[j]["d"]
                hit = False
                for n in g.walk():
                    for r in F.moves(n):
                        u = g.N[memo.unwrap(g, r)]
                        root = F.path(r)
                        if root is not None and root[0] == pd.id:
                            hit = True
                # base/member initialisers are part of the walk; captured in a lambda: assume taken
                for n in g.walk():
                    if g.N[n]["k"] == "lambda":
                        for h in self.P.lambdas_of(g.N[n]):
                            for m in h.walk():
                                if h.N[m]["k"] == "ref" and h.N[m].get("d") is pd:
                                    hit = True
                Fn._cons[key] = hit
            if Fn._cons[key]:
                return True
        return False

    # -------------------------------------------------------------- reads
    def role(self, n):
        """what happens to the path expression n: 'set', 'read', 'none'"""
        f = self.f
        prev, p = n, self.par.get(n)
        while p is not None and p >= 0 and f.N[p]["k"] in ("cast", "x"):
            prev, p = p, self.par.get(p)
        if p is None or p < 0:
            return "read"
        pn = f.N[p]
        k = pn["k"]
        a = cs(pn)
        d = pn.get("d")
        if pn.get("as"):
            return "none"
        if k == "asg":
            return "set" if a[0] == prev and pn.get("o") in ("=", None) else "read"
        if k == "call" and d is not None:
            if pn.get("o") == "=" and a and a[0] == prev:
                return "set"
            if pn.get("m") and a and a[0] == prev:
                if d.n in REINIT:
                    return "set"
                if d.n in ("operator bool", "has_value", "empty", "use_count", "joinable", "owns_lock", "valid", "get") and \
                        self.nullable(f.N[prev].get("t")):
                    return "none"
                return "read"
            if d.n in ("swap", "tie", "getline", "addressof", "move", "forward", "as_const", "size", "forward_as_tuple"):
                if d.n in ("move", "forward", "as_const", "size"):
                    return "arg" if d.n in ("move", "forward") else "read"
                return "set"
            if d.k == "conv" and self.nullable(f.N[prev].get("t")):
                return "none"
            if pn.get("o") in ("==", "!=") and self.nullable(f.N[prev].get("t")) and any(f.N[memo.unwrap(f, y)]["k"] in ("null", "zero") for y in a):
                return "none"
            off = 1 if pn.get("m") else 0
            if prev in a:
                j = a.index(prev) - off
                ps = d.p or ()
                if 0 <= j < len(ps) and ps[j] is not None and "&" in ps[j].s and "&&" not in ps[j].s and not ps[j].s.startswith("const ") and \
                        not ps[j].const and pn.get("o") not in ("<<", ">>"):
                    return "maybe"              # may be given a new value there
        if k == "var" and d is not None and d.t is not None and d.t.ref:
            return "alias"
        if k in ("sizeof", "typeid", "lambda"):
            return "none"
        if k == "un" and pn.get("o") == "&":
            return "alias"
        if k in ("block", "decl", "nop"):
            return "none"
        return "read"

    def nullable(self, t):
        return t is not None and ("_ptr" in bare(t) or "ExprPtr" in bare(t) or "std::optional" in bare(t) or "std::function" in bare(t)
                                  or "unique_lock" in bare(t) or "std::thread" in bare(t))


def overlap(a, b):
    n = min(len(a), len(b))
    return a[:n] == b[:n]


def check_moves(F, out, cnt):
    f = F.f
    mv = {}
    for n in f.walk():
        r = F.moves(n)
        if r:
            rs = []
            for x in r:
                p = F.path(x)
                t = f.N[memo.unwrap(f, x)].get("t")
                if p is not None and movable(t) and p != ("this",):
                    rs.append((p, x))
            if rs:
                mv[n] = rs
    if not mv:
        return
    cnt["moves"] += sum(len(v) for v in mv.values())
    cnt["functions with moves"] += 1
    # both moved and read by the arguments of one call
    for n, rs in mv.items():
        nd = f.N[n]
        par = F.par.get(n)
        if nd["k"] == "ctor" and par is not None and par >= 0 and f.N[par]["k"] in ("call", "ctor") and not f.N[par].get("li"):
            pn = f.N[par]
            if pn["k"] == "call" and pn.get("o") or pn.get("d") is None:
                continue
            for y in cs(pn):
                if y == n or pn.get("m") and y == cs(pn)[0]:
                    continue
                for z in f.subtree(y):
                    if f.N[z]["k"] not in ("ref", "mem"):
                        continue
                    p = F.path(z)
                    if p is not None and any(overlap(p, q) and len(p) >= len(q) for q, x in rs) and F.role(z) == "read" and maximal(F, z):
                        out.append((f, z, "order:" + F.name(z), "%s is read by one argument of the call that another argument moves from" % F.name(z)))
    if not f.g:
        return
    names = {}
    els = set()
    for b in f.g["bl"]:
        for e in b["e"]:
            if isinstance(e, int):
                els.add(e)

    def transfer(e, st, report):
        nd = f.N[e]
        k = nd["k"]
        if k == "var" and nd.get("d") is not None:
            ids = {nd["d"].id} | {getattr(y, "id", y) for y in nd.get("b") or ()}
            st = frozenset(x for x in st if x[0][0] not in ids)
        if k in ("ref", "mem") and maximal(F, e):
            p = F.path(e)
            if p is not None:
                r = F.role(e)
                hit = [x for x in st if overlap(x[0], p) and len(x[0]) <= len(p)]
                if r == "set" or r == "maybe":
                    if hit and r == "maybe" and report and mustread(F, e):
                        out.append((f, e, "moved:" + F.name(e), "%s is used after it was moved from (%s)" % (F.name(e), where(F, hit))))
                    # assignments take effect after their right-hand side; the element order has the operands first
                    top = e
                    while F.par.get(top) is not None and f.N[F.par[top]]["k"] in ("cast", "x"):
                        top = F.par[top]
                    if F.par.get(top) not in els:
                        st = frozenset(x for x in st if not (len(p) <= len(x[0]) and x[0][:len(p)] == p))
                elif r in ("read", "arg") and hit and report:
                    out.append((f, e, "moved:" + F.name(e), "%s is used after it was moved from (%s)" % (F.name(e), where(F, hit))))
        # the assignment itself
        if k == "asg" or k == "call" and nd.get("d") is not None:
            for y in cs(nd):
                u = memo.unwrap(f, y)
                if f.N[u]["k"] in ("ref", "mem"):
                    r = F.role(u) if maximal(F, u) else None
                    if r in ("set", "maybe"):
                        p = F.path(u)
                        if p is not None:
                            st = frozenset(x for x in st if not (len(p) <= len(x[0]) and x[0][:len(p)] == p))
        if e in mv:
            own = None
            if k == "call" and nd.get("o") == "=":
                own = F.path(cs(nd)[0])
            for p, x in mv[e]:
                if own is not None and own == p:
                    continue
                st = st | {(p, x)}
        return st

    # a move that not every iteration makes (one state of a state machine, one kind of element) is not carried into the next iteration when
    # the pointer is refilled or tested elsewhere in the loop
    hb = {}
    for b in f.g["bl"]:
        t = b.get("t")
        if t is not None and t >= 0 and f.N[t]["k"] in ("for", "while", "do", "rfor"):
            hb.setdefault(b["i"], t)

    def edge(b, k, st):
        s = b["s"][k]
        if s in hb and st:
            lp = hb[s]
            st = frozenset(x for x in st if not sometimes(F, x[1], lp))
        return st
    inn = flow.solve(f, frozenset(), transfer, edge, lambda a, b: a | b, limit=40)
    flow.replay(f, inn, transfer)


def sometimes(F, n, loop):
    """inside the loop, under a condition"""
    f = F.f
    cond = False
    for a in f.ancestors(n):
        if a == loop:
            return cond
        k = f.N[a]["k"]
        if k in ("switch", "case", "default"):
            cond = True
        if k == "if" and F.nullable(f.N[memo.unwrap(f, n)].get("t")):
            cond = True
    return False


def mustread(F, e):
    """passed by reference to something that reads it"""
    return False


def where(F, hit):
    f = F.f
    return "line %s" % min(f.line(x) for _, x in hit)


def maximal(F, n):
    f = F.f
    p = F.par.get(n)
    while p is not None and p >= 0 and f.N[p]["k"] in ("cast", "x"):
        p = F.par.get(p)
    if p is None or p < 0:
        return True
    return not (f.N[p]["k"] == "mem" and F.path(p) is not None)


# ------------------------------------------------------------------ invalidation
def kind(t):
    s = bare(t)
    if s.startswith(CONTIG):
        return "contig"
    if s.startswith(HASHED):
        return "hashed"
    if s.startswith(NODE):
        return "node"
    return None


def into(F, n, depth=0, hold=None, src=None):
    """(container path, container kind, reference?) an expression points into"""
    f = F.f
    n = memo.unwrap(f, n)
    if n is None or n < 0 or depth > 6:
        return None
    nd = f.N[n]
    k = nd["k"]
    a = cs(nd)
    d = nd.get("d")
    if k == "ref" and hold and d is not None and d.id in hold:
        if src is not None:
            src.add(d.id)
        return hold[d.id][1]
    if k == "call" and d is not None and a:
        t = f.N[memo.unwrap(f, a[0])].get("t")
        if nd.get("m") or nd.get("o") == "[]" or d.n in ("begin", "end", "data", "find_if", "find", "lower_bound", "upper_bound", "next", "prev", "get",
                                                         "cbegin", "cend", "max_element", "min_element", "addressof"):
            if kind(t) and (d.n in NAV or d.n in ("find_if", "max_element", "min_element")):
                p = F.path(a[0])
                if p is not None:
                    ref = nd.get("lv") and "iterator" not in (nd["t"].s if nd.get("t") is not None else "")
                    return p, kind(t), bool(ref)
            if d.n in ("next", "prev", "get", "addressof", "find_if", "find", "lower_bound", "upper_bound", "max_element", "min_element"):
                return into(F, a[0], depth + 1, hold, src)
        if nd.get("o") in ("+", "-", "++", "*", "->", "post++"):
            return into(F, a[0], depth + 1, hold, src)
    if k == "idx" and a:
        return into(F, a[0], depth + 1, hold, src)
    if k in ("un", "mem") and a:
        return into(F, a[0], depth + 1, hold, src)
    if k in ("ctor",) and len(a) == 1:
        return into(F, a[0], depth + 1, hold, src)
    return None


def holder(t):
    """a type that keeps pointing into a container"""
    if t is None:
        return False
    return t.ref or t.ptr or "iterator" in t.s or bool(re.search(r"string_view|std::span<|reference_wrapper", t.s))


def changes(F, n):
    """[(container path, kind of change, container kind)]"""
    f = F.f
    nd = f.N[n]
    a = cs(nd)
    d = nd.get("d")
    out = []
    if nd["k"] == "call" and d is not None and a:
        t = f.N[memo.unwrap(f, a[0])].get("t")
        kd = kind(t)
        if kd and (nd.get("m") or nd.get("o") in ("=", "+=")):
            p = F.path(a[0])
            if p is not None:
                if d.n in GROW or nd.get("o") == "+=":
                    out.append((p, "grow", kd))
                elif d.n in SHRINK or nd.get("o") == "=":
                    out.append((p, "erase" if d.n in ("erase", "pop_back", "pop_front", "extract") else "clear", kd))
                elif d.n == "operator[]" and kd == "contig" and "map" in bare(t):
                    out.append((p, "grow", kd))
                elif d.n == "operator[]" and kd == "hashed":
                    out.append((p, "grow", kd))
        elif nd.get("m") and f.N[memo.unwrap(f, a[0])]["k"] == "this" and F.E is not None:
            for g in F.P.targets(f, nd):
                for (r, s) in F.E.W.get(g.u, ()):
                    if r[0] == "t" and len(s) == 1 and not isinstance(s[0], str) and kind(s[0].t) == "contig" and g.fk is None and not d.co:
                        out.append((("this", s[0].n), "grow", "contig"))
        elif d.n in ("erase_if",) and not nd.get("m"):
            p = F.path(a[0])
            if p is not None and kd:
                out.append((p, "clear", kd))
    return out


def check_invalid(F, out, cnt):
    f = F.f
    hold, src = {}, {}
    while True:
        more = len(hold)
        for n in f.walk():
            nd = f.N[n]
            if nd["k"] == "var" and nd.get("d") is not None and nd["d"].sc == "local" and cs(nd) and holder(nd["d"].t) and nd["d"].id not in hold:
                via = set()
                x = into(F, cs(nd)[-1], 0, hold, via)
                if x is not None:
                    hold[nd["d"].id] = (n, x)
                    src[nd["d"].id] = via
        if len(hold) == more:
            break
    loops = []
    for n in f.walk():
        nd = f.N[n]
        if nd["k"] == "rfor" and len(cs(nd)) == 3:
            c = nd["c"]
            t = f.N[memo.unwrap(f, c[1])].get("t")
            p = F.path(c[1])
            if p is not None and kind(t):
                loops.append((n, c[2], p, kind(t)))
    if not hold and not loops:
        return
    cnt["references and iterators into containers"] += len(hold)
    cnt["loops over containers"] += len(loops)
    # changing the container of a range-for
    for n, body, p, kd in loops:
        for z in f.subtree(body):
            for q, ch, k2 in changes(F, z):
                if q != p or kd == "node" and ch == "grow" or kd == "node" and f.N[z].get("d") is not None and f.N[z]["d"].n == "operator[]":
                    continue
                if leaves(F, z, n):
                    continue
                out.append((f, z, "loop", "%s changes the container the enclosing range-for walks over" % F.name(cs(f.N[z])[0])))
    if not hold or not f.g:
        return
    # state: variable id -> container paths it may point into / invalid marks
    assigns = {}
    for n in f.walk():
        nd = f.N[n]
        a = cs(nd)
        tied = f.N[memo.unwrap(f, a[0])] if a else {"k": ""}
        tied = tied["k"] == "call" and tied.get("d") is not None and tied["d"].n == "tie"
        if not tied and (nd["k"] == "asg" or nd["k"] == "call" and nd.get("o") == "=") and len(a) == 2:
            u = f.N[memo.unwrap(f, a[0])]
            if u["k"] == "ref" and u.get("d") is not None and u["d"].id in hold and not u["d"].t.ref:
                assigns.setdefault(n, []).append((u["d"].id, into(F, a[1])))
        elif tied and nd["k"] == "call" and nd.get("d") is not None and (nd["d"].n == "operator=" or nd.get("o") == "="):
            for y in cs(f.N[memo.unwrap(f, a[0])]):
                u = f.N[memo.unwrap(f, y)]
                if u["k"] == "ref" and u.get("d") is not None and u["d"].id in hold:
                    assigns.setdefault(n, []).append((u["d"].id, None))
    reserved = set()
    for n in f.walk():
        nd = f.N[n]
        if nd["k"] == "call" and nd.get("m") and nd.get("d") is not None and nd["d"].n == "reserve":
            p = F.path(cs(nd)[0])
            if p is not None:
                reserved.add(p)

    def transfer(e, st, report):
        nd = f.N[e]
        k = nd["k"]
        if k == "var" and nd.get("d") is not None and nd["d"].id in hold:
            i = nd["d"].id
            st = frozenset(x for x in st if x[0] != i) | {(i, hold[i][1], None)}
            return st
        if k == "ref" and nd.get("d") is not None and nd["d"].id in hold:
            i = nd["d"].id
            bad = [x for x in st if x[0] == i and x[2] is not None]
            if bad and report:
                p = F.par.get(e)
                while p is not None and p >= 0 and f.N[p]["k"] in ("cast", "x"):
                    p = F.par.get(p)
                if p is not None and p >= 0 and p in assigns and memo.unwrap(f, cs(f.N[p])[0]) == e or nd.get("as"):
                    pass
                elif p is not None and p >= 0 and f.N[p].get("d") is not None and f.N[p]["k"] == "call" and f.N[p]["d"].n == "tie":
                    pass
                else:
                    out.append((f, e, "stale:" + nd["d"].n, "%s points into a container that was changed at line %s" %
                                (nd["d"].n, min(f.line(x[2]) for x in bad))))
        if e in assigns:
            for i, x in assigns[e]:
                old = [y for y in st if y[0] == i]
                st = frozenset(y for y in st if y[0] != i)
                if x is None and old:
                    x = old[0][1]
                if x is not None:
                    st = st | {(i, x, None)}
            return st
        ch = changes(F, e)
        if ch:
            new = set()
            for i, x, bad in st:
                if bad is None:
                    for q, c, kd in ch:
                        if x[0] != q:
                            continue
                        if kd == "node" and c == "grow":
                            continue
                        if kd == "hashed" and c == "grow" and x[2]:
                            continue
                        if kd in ("node", "hashed") and c == "erase" and not any(mentions(F, e, y) for y in {i} | src.get(i, set())):
                            continue
                        if c == "grow" and q in reserved and f.N[e]["d"].n in ("push_back", "emplace_back"):
                            continue        # room may have been made for it
                        bad = e
                new.add((i, x, bad))
            st = frozenset(new)
        return st
    def edge(b, k, st):
        # nothing can point into a container that was just found empty
        c = b.get("tc")
        if c is None or c < 0 or not st:
            return st
        for z in f.subtree(c):
            zn = f.N[z]
            if zn["k"] == "call" and zn.get("m") and zn.get("d") is not None and zn["d"].n in ("empty", "size"):
                p = F.path(cs(zn)[0])
                zero = zn["d"].n == "empty" or any(f.N[y]["k"] == "int" and str(f.N[y].get("v")) == "0" for y in f.subtree(c))
                if p is not None and zero:
                    st = frozenset(x for x in st if x[1][0] != p or x[2] is None)
        return st
    inn = flow.solve(f, frozenset(), transfer, edge, lambda a, b: a | b, limit=40)
    flow.replay(f, inn, transfer)


def mentions(F, n, i):
    return any(F.f.N[z]["k"] == "ref" and F.f.N[z].get("d") is not None and F.f.N[z]["d"].id == i for z in F.f.subtree(n))


def leaves(F, n, loop):
    """does control leave the loop right after the change?"""
    f = F.f
    prev = n
    for a in f.ancestors(n):
        if a == loop:
            return False
        nd = f.N[a]
        if nd["k"] == "block":
            c = cs(nd)
            i = c.index(prev) if prev in c else None
            if i is not None:
                for y in c[i + 1:]:
                    if f.N[y]["k"] in ("break", "ret", "throw"):
                        return True
                    if f.N[y]["k"] == "continue":
                        return False
        if nd["k"] in ("ret", "throw"):
            return True
        prev = a
    return False


# ---------------------------------------------------------------------- dangling
def temporary(F, n, depth=0):
    """is the object designated by n (part of) a temporary that owns it?"""
    f = F.f
    n = memo.unwrap(f, n)
    if n is None or n < 0 or depth > 8:
        return None
    nd = f.N[n]
    k = nd["k"]
    a = cs(nd)
    d = nd.get("d")
    t = nd.get("t")
    if k == "call" and d is not None:
        if nd.get("lv"):
            if nd.get("o") in ("*", "->") and a:
                return owner(F, a[0], depth + 1)
            if nd.get("m") and a:
                # a reference obtained from the object it is called on
                u = memo.unwrap(f, a[0])
                if F.f.N[u]["k"] == "call" and F.f.N[u].get("o") in ("->", "*"):
                    return owner(F, u, depth + 1) if returns_part(F, nd) else None
                r = f.N[u]
                if nd["c"] and r.get("lv"):
                    return temporary(F, u, depth + 1)
                if r["k"] == "call" and not r.get("lv") and nd["d"].n in ("as", "operator*", "get") and F.nullable(r.get("t")):
                    return owner(F, u, depth + 1)
                if r["k"] in ("call", "ctor") and not r.get("lv") and owning(r.get("t")) and fresh(F, u) and returns_part(F, nd):
                    return u
            return None
        return None
    if k == "mem" and a:
        if nd.get("ar"):
            return owner(F, a[0], depth + 1)
        r = f.N[memo.unwrap(f, a[0])]
        if r["k"] in ("call", "ctor") and not r.get("lv") and not (r.get("t") is not None and (r["t"].ref or r["t"].ptr)):
            return None                 # a member of a temporary bound to a reference extends it
        return temporary(F, a[0], depth + 1)
    if k == "un" and nd.get("o") == "*" and a:
        return None
    return None


def returns_part(F, nd):
    """does the member function return a reference to part of the object itself?"""
    d = nd["d"]
    tg = [g for g in F.P.targets(F.f, nd) if g.b is not None]
    if not tg:
        return d.n in ("front", "back", "at", "operator[]", "value", "get", "operator*", "first", "second", "str", "data", "operator->")
    for g in tg:
        for n in g.walk():
            if g.N[n]["k"] == "ret" and cs(g.N[n]):
                G = Fn(F.P, F.E, g)
                u = memo.unwrap(g, cs(g.N[n])[0])
                p = G.path(u)
                if p is not None and p[0] == "this":
                    return True
                if g.N[u]["k"] == "call" and g.N[u].get("d") is not None and g.N[u]["d"].n in ("front", "back", "at", "operator[]", "value") and cs(g.N[u]):
                    p = G.path(cs(g.N[u])[0])
                    if p is not None and p[0] == "this":
                        return True
    return False


def owning(t):
    if t is None or t.ref or t.ptr:
        return False
    s = bare(t)
    return not (VIEW.search(s) or LAZYVIEW.search(s) or "_ptr<" in s or s.endswith("ExprPtr") or "reference_wrapper" in s or "function<" in s)


def fresh(F, n):
    return True


def owner(F, n, depth):
    """the smart pointer at n is a temporary that alone owns what it points to"""
    f = F.f
    n = memo.unwrap(f, n)
    nd = f.N[n]
    if nd["k"] == "call" and nd.get("o") in ("->", "*") and cs(nd):
        return owner(F, cs(nd)[0], depth + 1)
    if nd["k"] == "call" and nd.get("d") is not None and not nd.get("lv"):
        t = nd.get("t")
        if t is not None and not t.ref and ("_ptr<" in t.s or "ExprPtr" in t.s) and nd["d"].n in OWNED:
            return n
    if nd["k"] == "call" and nd.get("d") is not None and nd.get("lv") and nd.get("m") and cs(nd):
        return temporary(F, n, depth + 1)
    return None


def check_dangling(F, out, cnt):
    f = F.f
    for n in f.walk():
        nd = f.N[n]
        k = nd["k"]
        a = cs(nd)
        d = nd.get("d")
        if k == "rfor" and len(nd["c"]) == 3:
            cnt["range-for ranges"] += 1
            u = memo.unwrap(f, nd["c"][1])
            x = temporary(F, u) if f.N[u].get("lv") else None
            if x is not None:
                out.append((f, u, "temp", "the range-for walks over part of a temporary that is destroyed before the first iteration"))
        if k == "var" and d is not None and d.sc == "local" and a and d.t is not None:
            par = F.par.get(n)
            u = memo.unwrap(f, a[-1])
            if d.t.ref and f.N[u].get("lv"):
                cnt["references bound"] += 1
                if par is not None and par >= 0 and f.N[par]["k"] == "rfor":
                    continue
                x = temporary(F, u)
                if x is not None:
                    out.append((f, n, "temp:" + d.n, "%s refers to part of a temporary that is destroyed at the end of the declaration" % d.n))
            elif re.search(r"basic_string_view<|string_view$|std::span<", bare(d.t)):
                cnt["views bound"] += 1
                x = viewed(F, u)
                if x is not None:
                    out.append((f, n, "temp:" + d.n, "%s views a temporary that is destroyed at the end of the declaration" % d.n))
        if k == "ret" and a and f.t is not None:
            escape(F, n, a[0], out, cnt)


def viewed(F, n, depth=0):
    """owning temporary a view is made from"""
    f = F.f
    n = memo.unwrap(f, n)
    if n is None or n < 0 or depth > 5:
        return None
    nd = f.N[n]
    a = cs(nd)
    if nd["k"] in ("ctor", "call") and nd.get("t") is not None and re.search(r"basic_string_view<|string_view$|std::span<", bare(nd["t"])):
        if nd["k"] == "call" and nd.get("d") is not None and nd["d"].k != "conv" and not nd.get("m"):
            return None
        for y in a[:1]:
            u = memo.unwrap(f, y)
            un = f.N[u]
            t = un.get("t")
            if t is None:
                continue
            if re.search(r"basic_string_view<|string_view$|std::span<", bare(t)):
                return viewed(F, u, depth + 1)
            if un["k"] in ("call", "ctor") and not un.get("lv") and bare(t).startswith(("std::basic_string<", "std::__cxx11::basic_string<",
                                                                                        "std::vector<", "boost::container::", "std::array<")):
                return u
            if nd["k"] == "call" and nd.get("m") and un["k"] in ("call", "ctor") and not un.get("lv") and owning(t):
                return u
    return None


def localobj(F, n):
    """decl of the local object (not reference) an expression designates or is part of"""
    f = F.f
    n = memo.unwrap(f, n)
    if n is None or n < 0:
        return None
    nd = f.N[n]
    a = cs(nd)
    d = nd.get("d")
    if nd["k"] == "ref" and d is not None and d.k in ("var", "parm") and d.sc not in ("global", "member", "slocal") and not d.tls:
        if d.t is not None and not d.t.ref and not d.t.ptr and d.k == "parm" and any(p["d"] is d for p in f.p):
            return d
        if d.t is not None and not d.t.ref and not d.t.ptr and d.k == "var" and d.sc == "local":
            for x in f.walk():
                if f.N[x]["k"] == "var" and f.N[x].get("d") is d:
                    return d
        return None
    if nd["k"] == "mem" and a and not nd.get("ar"):
        return localobj(F, a[0])
    if nd["k"] == "idx" and a:
        t = f.N[memo.unwrap(f, a[0])].get("t")
        return localobj(F, a[0]) if t is not None and "[" in t.s else None
    if nd["k"] == "call" and d is not None and a and (nd.get("m") or nd.get("o") == "[]") and d.n in ("operator[]", "at", "front", "back", "value",
                                                                                                     "c_str", "data") and \
            kind(f.N[memo.unwrap(f, a[0])].get("t")):
        return localobj(F, a[0])
    return None


def escape(F, r, n, out, cnt):
    f = F.f
    t = f.t
    u = memo.unwrap(f, n)
    nd = f.N[u]
    if t.ref:
        cnt["returned references"] += 1
        d = localobj(F, u)
        if d is not None:
            out.append((f, r, "return:" + d.n, "returns a reference to the local %s" % d.n))
        x = temporary(F, u) if nd.get("lv") else None
        if x is not None:
            out.append((f, r, "return", "returns a reference to part of a temporary"))
        return
    if t.ptr and nd["k"] == "un" and nd.get("o") == "&" and cs(nd):
        d = localobj(F, cs(nd)[0])
        if d is not None:
            out.append((f, r, "return:" + d.n, "returns the address of the local %s" % d.n))
    if t.ptr and nd["k"] == "call" and nd.get("d") is not None and nd["d"].n in ("c_str", "data", "get") and nd.get("m") and cs(nd):
        d = localobj(F, cs(nd)[0]) if kind(f.N[memo.unwrap(f, cs(nd)[0])].get("t")) or nd["d"].n == "get" and \
            "unique_ptr" in bare(f.N[memo.unwrap(f, cs(nd)[0])].get("t")) else None
        if d is not None:
            out.append((f, r, "return:" + d.n, "returns a pointer into the local %s" % d.n))
    if re.search(r"basic_string_view<|string_view$|std::span<", bare(t)):
        cnt["returned views"] += 1
        v = u
        for _ in range(4):
            vn = f.N[v]
            if vn["k"] in ("ctor", "call") and cs(vn) and (vn["k"] == "ctor" or vn.get("d") is not None and vn["d"].k == "conv"):
                v = memo.unwrap(f, cs(vn)[0])
            else:
                break
        d = localobj(F, v)
        if d is not None and not re.search(r"basic_string_view<|string_view$|std::span<", bare(d.t)) and owning(d.t):
            out.append((f, r, "return:" + d.n, "returns a view of the local %s" % d.n))
        elif viewed(F, u) is not None:
            out.append((f, r, "return", "returns a view of a temporary"))
    lazy = t.lam or "std::function<" in t.s or "(lambda" in t.s or LAZYVIEW.search(t.s)
    if lazy:
        cnt["returned function objects and lazy ranges"] += 1
        for z in f.subtree(u):
            zn = f.N[z]
            if zn["k"] != "lambda":
                continue
            if not stays(F, z, u):
                continue
            for c in zn.get("cap") or ():
                d = c.get("d")
                if not c.get("r") or d is None or d.tls or d.sc in ("global", "member", "slocal"):
                    continue
                if d.t is not None and d.t.ref:
                    continue
                if any(p["d"] is d for p in f.p) or any(f.N[x]["k"] == "var" and f.N[x].get("d") is d for x in f.walk()):
                    out.append((f, z, "capture:" + d.n, "returns a function object that captures the local %s by reference" % d.n))
        if LAZYVIEW.search(t.s):
            first = u
            while f.N[first]["k"] == "call" and cs(f.N[first]) and f.N[first].get("o") == "|":
                first = memo.unwrap(f, cs(f.N[first])[0])
            if f.N[first]["k"] == "ref" or f.N[first]["k"] == "mem":
                d = localobj(F, first)
                if d is not None and owning(d.t):
                    out.append((f, r, "return:" + d.n, "returns a lazy range over the local %s" % d.n))


def stays(F, z, top):
    """is the function object part of what is returned (not consumed by an algorithm on the way)?"""
    f = F.f
    prev = z
    for a in f.ancestors(z):
        nd = f.N[a]
        if nd["k"] == "call":
            d = nd.get("d")
            t = nd.get("t")
            if t is None or not (t.lam or "std::function<" in t.s or LAZYVIEW.search(t.s) or "(lambda" in t.s or "closure" in t.s or "pipeable" in t.s or
                                 "bind_back" in t.s):
                return False
        if a == top:
            return True
        prev = a
    return z == top


def analyse(P, E=None, rep=None):
    E = E or effects.Eff(P)
    Fn._cons = {}
    out = []
    cnt = {"moves": 0, "functions with moves": 0, "references and iterators into containers": 0, "loops over containers": 0, "references bound": 0,
           "views bound": 0, "returned references": 0, "returned views": 0, "returned function objects and lazy ranges": 0, "range-for ranges": 0}
    for f in P.fns.values():
        if f.b is None:
            continue
        F = Fn(P, E, f)
        check_moves(F, out, cnt)
        check_invalid(F, out, cnt)
        check_dangling(F, out, cnt)
    seen, res = set(), []
    for f, n, k, t in out:
        key = (f.f, f.line(n), k)
        if key in seen:
            continue
        seen.add(key)
        res.append((f, n, k, t))
    return res, cnt


def run(pid):
    rep = Report(pid, RULE)
    S = selftest.program("lifetime")
    found, _ = analyse(S)
    hit = {p for f, n, k, t in found for p in memo.strip(f.q).replace("(", "::").split("::") if p.startswith(("bad", "good"))}
    names = {p for f in S.fns.values() for p in memo.strip(f.q).replace("(", "::").split("::") if p.startswith(("bad", "good"))}
    want = {n for n in names if n.startswith("bad")}
    good = {h for h in hit if h.startswith("good")}
    rep.selftest("planted defects are found: " + ", ".join(sorted(want)), len(want) > 12 and want <= hit or print("missed", want - hit))
    rep.selftest("correct variants are quiet", not good or print("noise", good))
    P = facts.load()
    found, cnt = analyse(P, None, rep)
    for k, v in cnt.items():
        rep.count(k, v)
    rep.floor("moves", 200)
    rep.floor("references and iterators into containers", 50)
    rep.floor("loops over containers", 50)
    rep.floor("references bound", 200)
    rep.floor("returned references", 100)
    for f, n, k, t in found:
        rep.find("%s|%s" % (memo.strip(f.q), k), f.loc(n), "%s: %s" % (memo.strip(f.q), t))
    return rep.finish()
