"""C23: failures in parallel work reach the caller, threads are joined."""
from sqlib import facts, flow, memo, selftest
from sqlib.report import Report

TECHNIQUE = ("exception-escape analysis of thread bodies, typestate (running -> joined -> failure examined) over the CFG of every "
             "function that starts threads, and an effect audit of the functions between them and their callers")
NOTE = ("Operations of std::mutex, std::scoped_lock, std::thread::join and std::atomic are taken not to fail. The branch that uses the "
        "parallel algorithms of the C++ library (<execution>) is not part of the configured build and not analysed. Completion of the "
        "bodies themselves (absence of deadlock) is not decided here.")
RULE = ("Wherever a thread is started: (1) its body lets no exception escape: every call that may throw is inside a try with catch(...), "
        "whose handlers record std::current_exception() in an exception_ptr of the starting function, conditionally at most on that "
        "being still empty; (2) from the first start on, an exception in the starting function itself cannot bypass the joins; "
        "(3) every normal exit is preceded by joining every element of the container of threads, which is not cleared or shortened in "
        "between, and no thread is detached; (4) only after the joins, the recorded exception is tested and rethrown on every path "
        "where it is set; it is never reset or read earlier. Between the thread body and the user's function, and between the "
        "starting function and its callers, no handler swallows an exception and no function is noexcept.")

QUIET_NAMES = {"lock", "unlock", "try_lock", "join", "joinable", "current_exception", "size", "begin", "end", "empty",
               "load", "store", "fetch_add", "fetch_sub", "exchange", "test_and_set", "get_id", "yield", "swap",
               "front", "back", "operator[]", "operator*", "operator++", "operator!=", "operator==", "move", "forward",
               "operator->", "operator+", "operator-", "data", "get", "ref", "cref", "addressof", "notify_all",
               "notify_one", "min", "max", "advance", "next", "cbegin", "cend", "operator bool"}
QUIET_CLS = ("std::scoped_lock", "std::lock_guard", "std::unique_lock", "std::mutex", "std::recursive_mutex",
             "std::exception_ptr", "std::__exception_ptr", "std::atomic", "std::shared_lock", "std::shared_mutex",
             "__gnu_cxx::__normal_iterator", "std::thread::id")
DROP = {"clear", "pop_back", "erase", "resize", "swap", "assign", "pop_front"}
ENDS = {"terminate", "abort", "exit", "_Exit", "quick_exit"}


def threadish(t):
    return t is not None and ("std::thread" in t.s or "std::jthread" in t.s)


def callee(f, n):
    return f.N[n].get("d")


def var_of(f, n):
    """the variable an expression denotes (element, dereference and member chains go to their root)"""
    u = memo.unwrap(f, n)
    while u is not None and u >= 0:
        nd = f.N[u]
        if nd["k"] == "ref":
            return nd.get("d")
        if nd["k"] == "mem" and nd.get("d") is not None and nd["d"].k == "field":
            return nd["d"]
        if nd["k"] in ("un", "idx", "mem") and nd.get("c"):
            u = memo.unwrap(f, nd["c"][0])
            continue
        if nd["k"] == "ctor" and len(nd.get("c", ())) == 1 or nd["k"] == "call" and nd.get("c") and nd.get("d") is not None and \
                nd["d"].n in ("operator[]", "operator*", "operator->", "at", "front", "back", "begin", "end", "rbegin", "rend",
                              "ref", "move", "forward", "get", "operator++", "data"):
            u = memo.unwrap(f, nd["c"][0])
            continue
        return None
    return None


class Model:
    def __init__(self, P):
        self.P = P
        self._esc = {}
        self.alias = {}

    # ---------------------------------------------------- what may throw
    def bodies(self, f, n):
        """bodies a call or construction may run; a call of a lambda object included"""
        out = list(self.P.targets(f, n))
        nd = f.N[n]
        if not out and nd["k"] == "call" and nd.get("d") is not None and nd["d"].n == "operator()":
            out = [g for g in [self.P.fns.get(nd["d"].u)] if g]
        return out

    def throws(self, f, n, depth=0):
        """may evaluating node n itself (not its operands) throw?"""
        nd = f.N[n]
        k = nd["k"]
        if nd.get("as"):
            return False
        if k == "throw":
            return True
        if k == "new":
            return True
        if k not in ("call", "ctor"):
            return False
        d = nd.get("d")
        if d is None:
            return k == "call"
        if d.nx:
            return False
        bs = self.bodies(f, n)
        if nd.get("o") == "()" and nd.get("c") and not any(f.N[a]["k"] == "catch" for a in f.ancestors(n)):
            v = var_of(f, nd["c"][0])
            if v is not None and v.k == "parm":
                return True             # the caller's function: whatever this instantiation happens to be given
        if bs:
            return any(self.escapes(g, depth + 1) for g in bs)
        if d.n in QUIET_NAMES:
            return False
        if d.k == "ctor" and d.ck in ("copy", "move", "default") and nd.get("t") is not None and \
                not (nd["t"].s.startswith("std::") and d.ck != "move"):
            return False
        if any((d.q or "").startswith(c) for c in QUIET_CLS):
            return False
        return True

    def guards(self, f, n):
        """handlers of the try blocks around n, innermost first: [(try, [catch nodes])]"""
        out = []
        prev = n
        for a in f.ancestors(n):
            if f.N[a]["k"] == "try" and f.N[a]["c"][0] == prev:
                out.append((a, f.N[a]["c"][1:]))
            prev = a
        return out

    def escapes(self, g, depth=0):
        """nodes of g from which an exception may leave g"""
        if depth > 12:
            return []
        key = g.u
        if key in self._esc:
            return self._esc[key]
        self._esc[key] = []
        out = []
        for n in g.walk():
            if not self.throws(g, n, depth):
                continue
            for t, hs in self.guards(g, n):
                if any(g.N[h].get("all") for h in hs):
                    break
            else:
                out.append(n)
        self._esc[key] = out
        return out

    # ---------------------------------------------------- recording
    def eptr(self, t):
        return t is not None and "exception_ptr" in t.s

    def nulltest(self, f, c, E=None):
        """(variable, true-if-holds-when-set) for a test of an exception_ptr"""
        neg = False
        u = memo.unwrap(f, c)
        while True:
            nd = f.N[u]
            if nd["k"] == "rew" and nd.get("c"):
                u = memo.unwrap(f, nd["c"][0])
                continue
            if nd["k"] == "un" and nd["o"] == "!" or nd["k"] == "call" and nd.get("o") == "!":
                neg = not neg
                u = memo.unwrap(f, nd["c"][-1])
                continue
            if nd["k"] == "call" and nd.get("d") is not None and (nd["d"].k == "conv" or nd["d"].n == "has_value"):
                u = memo.unwrap(f, nd["c"][0])
                continue
            if nd["k"] in ("bin", "call") and nd.get("o") in ("!=", "==") and len(nd["c"]) == 2:
                a, b = memo.unwrap(f, nd["c"][0]), memo.unwrap(f, nd["c"][1])
                if not self.isnull(f, b):
                    a, b = b, a
                if not self.isnull(f, b):
                    return None
                if nd["o"] == "==":
                    neg = not neg
                u = a
                continue
            break
        v = var_of(f, u)
        if v is None or not self.eptr(v.t):
            # a bool local computed from it
            if v is not None and v.k == "var" and v.t is not None and v.t.boolean:
                for n in f.walk():
                    nd = f.N[n]
                    if nd["k"] == "var" and nd["d"] is v and nd.get("c"):
                        r = self.nulltest(f, nd["c"][0])
                        if r:
                            return r[0], r[1] != neg, n
            return None
        return v, not neg, u

    def isnull(self, f, n):
        nd = f.N[n]
        return nd["k"] in ("null", "zero") or nd["k"] == "ctor" and \
            (not nd.get("c") or len(nd["c"]) == 1 and self.isnull(f, memo.unwrap(f, nd["c"][0]))) or \
            nd["k"] == "ilist" and not nd.get("c")

    def current(self, f, n):
        for x in f.subtree(n):
            nd = f.N[x]
            if nd["k"] == "call" and nd.get("d") is not None and nd["d"].n == "current_exception":
                return True
            if nd["k"] == "ref" and nd.get("d") is not None and self.eptr(nd["d"].t):
                v = nd["d"]
                if v.k == "parm":
                    return True
                for y in f.walk():
                    if f.N[y]["k"] == "var" and f.N[y]["d"] is v and f.N[y].get("c") and \
                            self.current(f, f.N[y]["c"][0]):
                        return True
        return False

    def stores(self, f, n):
        """exception_ptr variable node n assigns the current exception to"""
        nd = f.N[n]
        if nd["k"] == "asg" or nd["k"] == "call" and nd.get("o") == "=":
            v = var_of(f, nd["c"][0])
            if v is not None and self.eptr(v.t) and self.current(f, nd["c"][1]):
                return v
        if nd["k"] == "call" and nd.get("m") and nd.get("d") is not None and \
                nd["d"].n in ("push_back", "emplace_back", "emplace", "insert"):
            v = var_of(f, nd["c"][0])
            if v is not None and self.eptr(v.t) and self.current(f, nd["c"][-1]):
                return v
        return None

    def atomic_once(self, f, c):
        for x in f.subtree(c):
            nd = f.N[x]
            if nd["k"] == "call" and nd.get("d") is not None and \
                    (nd["d"].n in ("exchange", "test_and_set", "compare_exchange_strong", "compare_exchange_weak", "call_once")
                     or nd["d"].n == "fetch_add"):
                return True
        return False

    def records(self, f, n, E, depth=0):
        """does executing statement n certainly leave a recorded exception in E? -> (True|False|'leaves')"""
        if n is None or n < 0 or depth > 30:
            return False
        nd = f.N[n]
        k = nd["k"]
        if k in ("block", "try"):
            for c in (nd["c"] if k == "block" else nd["c"][:1]):
                r = self.records(f, c, E, depth + 1)
                if r:
                    return r
            return False
        if k == "if":
            cs = [c for c in nd["c"]]
            cond = cs[0]
            then = cs[1] if len(cs) > 1 else None
            els = cs[2] if len(cs) > 2 else None
            rt = self.records(f, then, E, depth + 1)
            re_ = self.records(f, els, E, depth + 1)
            if rt is True and re_ is True:
                return True
            t = self.nulltest(f, cond)
            if t:
                isset, unset = (then, els) if t[1] else (els, then)
                E.add(t[0])
                r = self.records(f, unset, E, depth + 1)
                if r is True:
                    return True
                # set already: may leave
                return False
            if self.atomic_once(f, cond) and (rt is True or re_ is True):
                return True
            return False
        if k in ("ret", "throw", "break", "continue"):
            return "leaves" if k != "throw" else (True if not nd.get("c") else "leaves")
        if k in ("for", "rfor", "while", "switch", "do", "lambda"):
            return False
        # expression: unconditional parts only
        for x in self.flat(f, n):
            v = self.stores(f, x)
            if v is not None:
                E.add(v)
                return True
            y = f.N[x]
            if y["k"] == "throw":
                return True
            if y["k"] == "call" and y.get("d") is not None:
                if y["d"].n in ("rethrow_exception", "throw_with_nested", "rethrow"):
                    return True
                if y["d"].n == "call_once":
                    for z in f.subtree(x):
                        if f.N[z]["k"] == "lambda" and any(self.records(g, g.b, E, depth + 1) is True
                                                           for g in self.P.lambdas_of(f.N[z])):
                            return True
                bs = self.bodies(f, x)
                if bs and all(self.records(g, g.b, E, depth + 1) is True for g in bs):
                    # exception_ptr handed over by reference
                    for a in y["c"]:
                        v = var_of(f, a)
                        if v is not None and self.eptr(v.t):
                            E.add(v)
                    return True
        return False

    def flat(self, f, n):
        st = [n]
        while st:
            x = st.pop()
            nd = f.N[x]
            yield x
            if nd["k"] in ("lambda",):
                continue
            cs = facts.kids(nd)
            if nd["k"] in ("cond",) or nd["k"] == "bin" and nd.get("o") in ("&&", "||"):
                cs = cs[:1]
            st.extend(c for c in cs if c is not None and c >= 0)

    # ---------------------------------------------------- joining
    def joins_one(self, f, n):
        nd = f.N[n]
        if nd["k"] == "call" and nd.get("m") and nd.get("d") is not None and nd["d"].n == "join" and \
                threadish(f.N[memo.unwrap(f, nd["c"][0])].get("t") or (var_of(f, nd["c"][0]).t if var_of(f, nd["c"][0]) else None)):
            return var_of(f, nd["c"][0])
        return None

    def joins_stmt(self, f, n, v):
        """statement n joins v unconditionally (or when joinable)"""
        nd = f.N[n]
        if nd["k"] in ("block",):
            for c in nd["c"]:
                if f.N[c]["k"] in ("break", "continue", "ret", "throw"):
                    return False
                if self.joins_stmt(f, c, v):
                    return True
                if any(f.N[x]["k"] in ("break", "continue", "ret", "throw") for x in f.subtree(c)):
                    return False
            return False
        if nd["k"] == "if":
            c = nd["c"][0]
            t = f.N[memo.unwrap(f, c)]
            if t["k"] == "call" and t.get("d") is not None and t["d"].n == "joinable" and len(nd["c"]) > 1:
                return self.joins_stmt(f, nd["c"][1], v)
            return False
        if nd["k"] in ("for", "while", "rfor", "do", "switch"):
            return False
        for x in self.flat(f, n):
            if v is None and self.joins_one(f, x) is not None or v is not None and self.joins_one(f, x) is v:
                return True
            y = f.N[x]
            if y["k"] == "call" and v is not None:
                for g in self.bodies(f, x):
                    off = 1 if y.get("m") else 0
                    for i, p in enumerate(g.p):
                        a = y["c"][i + off] if i + off < len(y["c"]) else None
                        if a is not None and var_of(f, a) is v and g.b is not None and self.joins_stmt(g, g.b, p["d"]):
                            return True
        return False

    def leaves(self, f, body):
        for x in f.subtree(body):
            nd = f.N[x]
            if nd["k"] in ("break", "ret", "throw", "goto") or \
                    nd["k"] == "call" and nd.get("d") is not None and nd["d"].n in ("rethrow_exception",):
                return True
        return False

    def join_loop(self, f, n):
        """loop joining every element of a container: the container, else None"""
        nd = f.N[n]
        if nd["k"] == "rfor":
            body = nd["c"][2]
            if self.leaves(f, body):
                return None
            lv = f.N[nd["c"][0]]["d"]
            if lv is None or not lv.t.ref:
                return None
            return var_of(f, nd["c"][1]) if self.joins_stmt(f, body, lv) else None
        if nd["k"] in ("for", "while"):
            body = nd["c"][-1]
            if body is None or body < 0 or self.leaves(f, body):
                return None
            v = None
            for x in f.subtree(body):
                w = self.joins_one(f, x)
                if w is not None:
                    v = w
            if v is None:
                return None
            if v.t is not None and threadish(v.t) and not self.container(v.t) and "iterator" not in v.t.s:
                # auto& t = threads[i]
                for x in f.subtree(body):
                    y = f.N[x]
                    if y["k"] == "var" and y["d"] is v and y.get("c"):
                        v2 = var_of(f, y["c"][0])
                        if v2 is not None and v.t.ref:
                            return self.whole(f, n, v2) if self.joins_stmt(f, body, v) else None
                return None
            return self.whole(f, n, v) if self.joins_stmt(f, body, v) else None
        return None

    def container(self, t):
        return t is not None and threadish(t) and not memo.strip(t.s.replace("const ", "")).strip(" &*").endswith("thread")

    def whole(self, f, n, v):
        """does loop n visit all of v (v: container, or iterator into one)?"""
        nd = f.N[n]
        if nd["k"] == "while":
            c = nd["c"][0]
            if any(f.N[x]["k"] == "call" and f.N[x].get("d") is not None and f.N[x]["d"].n == "empty" and var_of(f, f.N[x]["c"][0]) is v
                   for x in f.subtree(c)):
                return v
        cond = nd["c"][1] if nd["k"] == "for" else nd["c"][0]
        if cond is None or cond < 0:
            return None
        cv = set()
        for x in f.subtree(cond):
            y = f.N[x]
            if y["k"] == "call" and y.get("d") is not None and y["d"].n in ("size", "end", "cend", "ssize") and y["c"]:
                w = var_of(f, y["c"][0])
                if w is not None:
                    cv.add(w)
            elif y["k"] == "ref" and y.get("d") is not None and y["d"].k == "var":
                for z in f.walk():
                    q = f.N[z]
                    if q["k"] == "var" and q["d"] is y["d"] and q.get("c"):
                        for u in f.subtree(q["c"][0]):
                            r = f.N[u]
                            if r["k"] == "call" and r.get("d") is not None and r["d"].n in ("size", "end", "begin") and r["c"]:
                                w = var_of(f, r["c"][0])
                                if w is not None:
                                    cv.add(w)
        cv = {w for w in cv if self.container(w.t)}
        if len(cv) != 1:
            return None
        w = next(iter(cv))
        if v is not w and not (v.t is not None and "iterator" in v.t.s):
            return None
        if any(f.N[x]["k"] == "bin" and f.N[x].get("o") in ("-", "+", "/", "*", "&&") for x in f.subtree(cond)):
            return None
        # starts at the first element
        for x in f.subtree(n):
            y = f.N[x]
            if y["k"] == "call" and y.get("d") is not None and y["d"].n in ("next", "advance", "operator+", "operator+="):
                return None
        vars_ = [f.N[x]["d"] for x in f.subtree(cond) if f.N[x]["k"] == "ref" and f.N[x].get("d") is not None]
        for z in f.walk():
            q = f.N[z]
            if q["k"] == "var" and q["d"] in vars_ and q.get("c"):
                i = memo.unwrap(f, q["c"][0])
                t = f.N[i]
                if t["k"] == "int" and str(t["v"]) != "0":
                    return None
                if any(f.N[x]["k"] in ("bin",) or f.N[x]["k"] == "call" and f.N[x].get("o") in ("+", "-") for x in f.subtree(i)):
                    return None
        return w

    # ---------------------------------------------------- starting
    def starts(self, f, n):
        """(container or thread variable, callable argument node) when n starts a thread"""
        nd = f.N[n]
        d = nd.get("d")
        if d is None:
            return None
        if nd["k"] == "ctor" and d.k == "ctor" and d.c in ("std::thread", "std::jthread") and d.ck is None and nd.get("c"):
            own = None
            for a in f.ancestors(n):
                y = f.N[a]
                if y["k"] == "var":
                    own = y["d"]
                    break
                if y["k"] in ("asg", "call") and y.get("c") and (y["k"] == "asg" or y.get("o") == "=" or y.get("m")):
                    own = var_of(f, y["c"][0])
                    break
                if y["k"] in ("block", "ret"):
                    break
            return own, nd["c"][0], d.c
        if nd["k"] == "call" and nd.get("m") and d.n in ("emplace_back", "emplace") and nd["c"]:
            v = var_of(f, nd["c"][0])
            if v is not None and self.container(v.t) and len(nd["c"]) > 1:
                a = f.N[memo.unwrap(f, nd["c"][1])]
                if threadish(a.get("t")) and a["k"] in ("ctor", "call") and not (a.get("t").lam):
                    return None             # the construction of the argument is the start
                return v, nd["c"][1], "std::jthread" if "std::jthread" in v.t.s else "std::thread"
        return None

    def callables(self, f, n, depth=0):
        u = memo.unwrap(f, n)
        if u is None or u < 0 or depth > 6:
            return []
        nd = f.N[u]
        if nd["k"] == "lambda":
            return self.P.lambdas_of(nd)
        if nd["k"] == "ref" and nd.get("d") is not None:
            d = nd["d"]
            if d.k in ("func", "method"):
                return [g for g in [self.P.fns.get(d.u)] if g]
            for x in f.walk():
                y = f.N[x]
                if y["k"] == "var" and y["d"] is d and y.get("c"):
                    return self.callables(f, y["c"][0], depth + 1)
            # parameter or captured variable of lambda type
            return self.bytype(d.t)
        if nd["k"] in ("call", "ctor") and nd.get("c"):
            for c in nd["c"]:
                r = self.callables(f, c, depth + 1)
                if r:
                    return r
        return self.bytype(nd.get("t"))

    def bytype(self, t):
        if t is None:
            return []
        out = []
        for g in self.P.fns.values():
            if g.n == "operator()" and g.ct is not None and g.ct.s == t.s.replace("const ", "").rstrip("& "):
                out.append(g)
        return out


def analyse(P):
    M = Model(P)
    out = []
    cnt = {"thread starts": set(), "thread bodies": set(), "starting functions": set(), "handlers": set(), "functions between": set()}
    notes = []
    anywhere = []
    starting = {}
    for f in P.fns.values():
        for n in f.walk():
            nd = f.N[n]
            s = M.starts(f, n)
            if s:
                starting.setdefault(f.u, []).append((n,) + s)
            if nd["k"] == "call" and nd.get("d") is not None and nd.get("m") and nd["d"].n == "detach" and \
                    (nd["d"].c or "").startswith("std::"):
                out.append((f, n, "detach", "a thread is detached: nothing waits for it and a failure in it is lost"))
            if nd["k"] == "call" and nd.get("d") is not None and nd["d"].q == "std::async":
                anywhere.append((f, n))
    for f, n in anywhere:
        if not any(f.N[x]["k"] == "call" and f.N[x].get("d") is not None and f.N[x]["d"].n == "get" and
                   "future" in (f.N[x]["d"].c or "") for x in f.walk()):
            out.append((f, n, "async", "the result of std::async is never asked for: a failure in it is lost"))
    chain = set()
    for u, ss in starting.items():
        f = P.fns[u]
        cnt["starting functions"].add(memo.strip(f.q))
        chain.add(u)
        rethrown, E = set(), set()
        vs = set()
        for n, v, c, kind in ss:
            cnt["thread starts"].add((memo.strip(f.q), f.line(n)))
            if v is not None:
                vs.add(v)
            bodies = M.callables(f, c)
            if not bodies:
                notes.append("%s: the callable started at line %s is not resolved" % (memo.strip(f.q), f.line(n)))
            for g in bodies:
                cnt["thread bodies"].add((g.f, g.l))
                for x in M.escapes(g):
                    out.append((g, x, "escape", "an exception thrown here leaves the body of a thread and terminates the process"))
                if g.nx:
                    # noexcept body: whatever it catches is fine
                    pass
                body_handlers(M, P, g, E, out, cnt, set(), chain)
        for n, v, c, kind in ss:
            for t, hs in M.guards(f, n):
                for h in hs:
                    handler(M, f, h, E, out, cnt)
        # callers' side
        starting_function(M, P, f, ss, vs, E, out, notes)
    # functions between the starting function and library/user code
    callers = {}
    for g in P.fns.values():
        for n in g.walk():
            if g.N[n]["k"] == "call":
                for h in P.targets(g, n):
                    callers.setdefault(h.u, set()).add(g.u)
    home = {P.fns[u].f for u in starting}
    work = list(starting)
    seen = set(work)
    while work:
        u = work.pop()
        for c in callers.get(u, ()):
            g = P.fns[c]
            cnt["functions between"].add(memo.strip(g.q))
            audit(M, P, g, u, out, cnt, home)
            if c not in seen and g.f in home:
                seen.add(c)
                work.append(c)
                chain.add(c)
    # lambdas handed down inside those functions
    for u in seen:
        g = P.fns[u]
        for n in g.walk():
            if g.N[n]["k"] == "lambda":
                for h in P.lambdas_of(g.N[n]):
                    if u in starting and any(h in M.callables(P.fns[u], s[2]) for s in starting[u]):
                        continue
                    if u in starting and h.nx:
                        continue
                    audit_lambda(M, P, h, out, cnt)
        for n in g.walk():
            nd = g.N[n]
            if nd["k"] == "call" and nd.get("d") is not None and nd["d"].n in ENDS and (nd["d"].q or "").startswith(("std::", "exit", "abort", "_Exit")):
                out.append((g, n, "ends", "ends the process (%s)" % nd["d"].n))
    return out, cnt, notes


def body_handlers(M, P, g, E, out, cnt, seen, chain):
    if g.u in seen:
        return
    seen.add(g.u)
    for n in g.walk():
        if g.N[n]["k"] == "try":
            for h in g.N[n]["c"][1:]:
                handler(M, g, h, E, out, cnt)
        if g.N[n]["k"] == "call":
            for t in M.bodies(g, n):
                if t.f == g.f:
                    body_handlers(M, P, t, E, out, cnt, seen, chain)
                    if t.nx and any(True for x in t.walk() if M.throws(t, x)) and M.escapes(t):
                        out.append((t, M.escapes(t)[0], "noexcept",
                                    "an exception thrown here leaves a noexcept function and terminates the process"))


def handler(M, f, h, E, out, cnt):
    cnt["handlers"].add((f.f, f.line(h)))
    body = [c for c in f.N[h].get("c", ())]
    r = M.records(f, body[0], E) if body else False
    if r is not True:
        out.append((f, h, "swallow", "a handler around work of a thread does not record the exception on every path"))


def starting_function(M, P, f, ss, vs, E, out, notes):
    P_ = {n for n, _, _, _ in ss}
    jt = all(k == "std::jthread" for _, _, _, k in ss)
    # threads kept in locals of f?
    esc = [v for v in vs if v.k != "var"]
    bl = flow.blocks(f)
    # RAII: a local whose destructor joins, or jthreads
    guard = set()
    for n in f.walk():
        nd = f.N[n]
        if nd["k"] == "var" and nd["d"] is not None and nd["d"].t is not None:
            if "std::jthread" in nd["d"].t.s:
                guard.add(nd["d"])
            for g in P.fns.values():
                if g.fk == "dtor" and g.ct is not None and g.ct.s == nd["d"].t.s.replace("const ", "") and g.b is not None and \
                        any(M.join_loop(g, x) is not None or M.joins_one(g, x) is not None for x in g.walk()):
                    guard.add(nd["d"])
    joined_by = {}
    for n in f.walk():
        if f.N[n]["k"] in ("rfor", "for", "while"):
            v = M.join_loop(f, n)
            if v is not None:
                joined_by[n] = v
    Evars = {v for v in E}
    rethrow = {}
    stores = {}
    for n in f.walk():
        nd = f.N[n]
        if nd["k"] == "call" and nd.get("d") is not None and nd["d"].n == "rethrow_exception":
            v = var_of(f, nd["c"][0]) if nd["c"] else None
            if v is not None:
                rethrow[n] = v

    loopvar = {}
    for n in f.walk():
        nd = f.N[n]
        if nd["k"] == "rfor" and nd["c"][0] >= 0:
            loopvar[f.N[nd["c"][0]]["d"]] = var_of(f, nd["c"][1])
        elif nd["k"] == "var" and nd.get("c") and M.eptr(nd["d"].t) and nd["d"] not in E:
            w = var_of(f, nd["c"][0])
            if w is not None:
                loopvar[nd["d"]] = w

    def root(v):
        for _ in range(5):
            if v in loopvar and loopvar[v] is not None:
                v = loopvar[v]
        return v

    helper_rethrow = {}
    for n in f.walk():
        nd = f.N[n]
        if nd["k"] == "call":
            for g in M.bodies(f, n):
                if any(g.N[x]["k"] == "call" and g.N[x].get("d") is not None and g.N[x]["d"].n == "rethrow_exception" for x in g.walk()) \
                        and g.u != f.u:
                    for a in nd["c"]:
                        v = var_of(f, a)
                        if v is not None and M.eptr(v.t):
                            helper_rethrow[n] = v

    started = set(P_)

    # state: (phase, set of exception_ptrs dealt with); phase 0 none, 1 running, 2 joined
    rep = []

    def transfer(n, st, report):
        if isinstance(n, list):
            return st
        ph, ok = st
        nd = f.N[n]
        if n in started:
            if report and ph == 1 and not guard and not any(any(f.N[h].get("all") for h in hs) for t, hs in M.guards(f, n)):
                rep.append((n, "bypass", "a failure to start a further thread leaves the function while others are running"))
            return 1, frozenset()
        if ph == 1:
            v = M.joins_one(f, n)
            if v is not None and v in vs and not M.container(v.t):
                return 2, ok
            if nd["k"] == "call":
                for g in M.bodies(f, n):
                    for i, p in enumerate(g.p):
                        a = nd["c"][i + (1 if nd.get("m") else 0)] if i + (1 if nd.get("m") else 0) < len(nd["c"]) else None
                        if a is not None and var_of(f, a) in vs and g.b is not None:
                            for x in g.walk():
                                if M.join_loop(g, x) is p["d"]:
                                    return 2, ok
                # std::for_each(threads..., lambda joining its parameter)
                if nd.get("d") is not None and nd["d"].n == "for_each" or nd.get("o") == "()":
                    for a in nd["c"]:
                        u = memo.unwrap(f, a)
                        if f.N[u]["k"] == "lambda":
                            for g in P.lambdas_of(f.N[u]):
                                if g.p and g.b is not None and M.joins_stmt(g, g.b, g.p[0]["d"]) and \
                                        any(var_of(f, b) in vs for b in nd["c"]):
                                    return 2, ok
                if nd.get("m") and nd.get("d") is not None and nd["d"].n in DROP and var_of(f, nd["c"][0]) in vs and report:
                    inl = any(a in joined_by for a in f.ancestors(n))
                    if not inl:
                        rep.append((n, "dropped", "running threads are dropped from their container before being joined"))
            if report and not guard and M.throws(f, n) and n not in started:
                if not any(any(f.N[h].get("all") for h in hs) for t, hs in M.guards(f, n)):
                    rep.append((n, "bypass", "an exception thrown here leaves the function while its threads are running"))
        if report and ph == 1:
            v = None
            if nd["k"] == "call" and nd.get("d") is not None and nd["d"].n == "rethrow_exception" and not guard:
                rep.append((n, "early", "the recorded exception is rethrown before the threads are joined"))
        if n in helper_rethrow and ph == 2:
            return ph, ok | {root(helper_rethrow[n])}
        if nd["k"] == "var" and nd.get("c") and nd["d"].t is not None and nd["d"].t.boolean:
            t = M.nulltest(f, nd["c"][0])
            if t and ph == 1 and report and t[0] in Evars:
                rep.append((n, "stale", "whether a thread failed is decided before the threads are joined"))
        if nd["k"] == "asg" or nd["k"] == "call" and nd.get("o") == "=":
            v = var_of(f, nd["c"][0])
            if v is not None and v in Evars and M.isnull(f, memo.unwrap(f, nd["c"][1])) and ph >= 1 and report:
                rep.append((n, "reset", "the recorded exception is discarded"))
        if nd["k"] in ("ctor",) and False:
            pass
        return ph, ok

    def edge(b, k, st):
        ph, ok = st
        t = b.get("t")
        if t is not None and t >= 0 and t in joined_by and k == 1 and joined_by[t] in vs and ph == 1:
            ph = 2
        a = flow.atoms(f, b)
        if a is not None:
            r = M.nulltest(f, a[0])
            if r is not None and ph != 1:
                isset = r[1] != a[1]
                v = root(r[0])
                # the branch on which it is not set
                if (k == 1) == isset:
                    ok = ok | {v}
        if t is not None and t >= 0 and f.N[t]["k"] == "rfor" and k == 1 and ph != 1:
            # for (auto& e : failures) if (e) rethrow
            w = var_of(f, f.N[t]["c"][1])
            if w is not None and any(root(rethrow[x]) is w for x in rethrow if x in set(f.subtree(t))):
                ok = ok | {w}
        return ph, ok

    def join(x, y):
        # the phase is a may-state: running dominates
        ph = 1 if 1 in (x[0], y[0]) else max(x[0], y[0])
        return ph, x[1] & y[1]

    inn = flow.solve(f, (0, frozenset()), transfer, edge, join)
    flow.replay(f, inn, transfer)
    for n, key, text in rep:
        out.append((f, n, key, text))
    ex = f.g["ex"]
    if not f.g:
        return
    first = min(P_, key=lambda n: f.line(n))
    if esc and not all(v.k == "var" for v in vs):
        notes.append("%s: threads outlive the function that starts them; not followed" % memo.strip(f.q))
        return
    if ex in inn:
        ph, ok = inn[ex]
        if ph == 1 and not guard:
            out.append((f, first, "unjoined", "the function can return without having joined every thread it started"))
        elif ph >= 1 or guard:
            roots = {root(v) for v in E} or set()
            if not E:
                if not any(k == "std::jthread" for _, _, _, k in ss) or True:
                    out.append((f, first, "unrecorded", "no failure of the started threads is recorded"))
            elif guard and not jt and not rethrow and not helper_rethrow:
                out.append((f, first, "lost", "a recorded failure is not rethrown"))
            elif not guard:
                local = {v for v in roots if v.k in ("var", "parm")}
                if local and not (local & set(ok)):
                    out.append((f, first, "lost", "a path returns normally although a recorded failure may be set"))


def audit(M, P, g, u, out, cnt, home):
    for n in g.walk():
        if g.N[n]["k"] == "call" and any(h.u == u for h in P.targets(g, n)):
            if g.nx:
                out.append((g, n, "noexcept", "a parallel loop is run in a noexcept function: a failure terminates the process"))
            for t, hs in M.guards(g, n):
                for h in hs:
                    cnt["handlers"].add((g.f, g.line(h)))
                    body = g.N[h].get("c", ())
                    if g.f in home and (not body or M.records(g, body[0], set()) is not True):
                        out.append((g, h, "swallow", "a handler keeps a failure of parallel work from the caller"))
            # bodies handed over
            for a in g.N[n]["c"]:
                for b in M.callables(g, a):
                    if b.nx and M.escapes(b):
                        out.append((b, M.escapes(b)[0], "noexcept",
                                    "the body handed to a parallel loop is noexcept, but this may throw: the process terminates"))


def audit_lambda(M, P, h, out, cnt):
    if h.nx and M.escapes(h):
        out.append((h, M.escapes(h)[0], "noexcept", "an exception thrown here leaves a noexcept lambda and terminates the process"))
    for n in h.walk():
        if h.N[n]["k"] == "try":
            for c in h.N[n]["c"][1:]:
                cnt["handlers"].add((h.f, h.line(c)))
                body = h.N[c].get("c", ())
                if not body or M.records(h, body[0], set()) is not True:
                    out.append((h, c, "swallow", "a handler keeps a failure of parallel work from the caller"))


def run(pid):
    rep = Report(pid, RULE)
    S = selftest.program("threads")
    found, _, _ = analyse(S)
    bad = {memo.strip(f.q).split("::")[0 if False else -1] if not f.lam else f.par and memo.strip(S.fns[f.par].q).split("::")[-1]
           if f.par in S.fns else "?" for f, n, k, t in found}
    if False:
        print(bad)
    names = {memo.strip(f.q).split("::")[-1] for f in S.fns.values()}
    want = {n for n in names if n.startswith("bad_")}
    good = {n for n in names if n.startswith("good_")}
    hit = set()
    for f, n, k, t in found:
        g = f
        while g is not None:
            nm = memo.strip(g.q).split("::")[-1]
            if nm.startswith(("bad_", "good_")):
                hit.add(nm)
            g = S.fns.get(g.par) if g.par else None
    rep.selftest("planted defects are found: " + ", ".join(sorted(want)), want <= hit or print("missed", want - hit))
    rep.selftest("correct variants are quiet", not (hit & good) or print("noise", hit & good))
    P = facts.load()
    found, cnt, notes = analyse(P)
    for k, v in cnt.items():
        rep.count(k, len(v))
    for n in sorted(set(notes)):
        rep.notes.append(n)
    rep.floor("thread starts", 1)
    rep.floor("thread bodies", 1)
    rep.floor("functions between", 4)
    for q in sorted(cnt["functions between"]):
        rep.sample("runs a parallel loop: " + q)
    for f, n, k, t in found:
        rep.find("%s|%s" % (memo.strip(f.q), k), f.loc(n), "%s: %s" % (memo.strip(f.q), t))
    return rep.finish()
