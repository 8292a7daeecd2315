"""C10: process-wide and lock-protected state is accessed only under its lock."""
from collections import defaultdict
from sqlib import effects, facts, locks, memo, selftest
from sqlib.report import Report
from checks import c20_init as c20, c23_threads as c23

TECHNIQUE = ("lockset analysis: forward must-dataflow of held locks (scoped guards, guards handed out by accessors, explicit lock/unlock) over "
             "every function that touches state that has a lock, with the guarding lock inferred from the locked accesses and accesses through "
             "accessors, local references, iterators and internal helpers followed to the code that must hold the lock; reachability from "
             "thread bodies over the call graph for state without a lock")
NOTE = ("Objects are not distinguished: the lock of one object is taken to be the lock of any object of its class. State reached through "
        "virtual calls into user code is not followed. A constant reference handed out by a locking accessor (the default context) may be "
        "read after the lock is released: the library's documented contract is that the context is not replaced while workers run.")
RULE = ("State that is protected by a lock somewhere (process-wide variables, and fields of classes with a mutex) is read and written only with "
        "that lock held, and no modifiable reference to it is handed out without the lock. Process-wide state without a lock is never "
        "written by code that worker threads can reach, and an atomic is not stored a value computed from an earlier load of it. A mutex locked explicitly is unlocked on every exit, exceptional ones included.")

ELEM = {"operator[]", "at", "front", "back", "begin", "end", "cbegin", "cend", "rbegin", "rend", "find", "lower_bound", "upper_bound", "data",
        "value", "get", "move", "forward", "as_const", "ref", "addressof", "first", "second", "make_pair", "make_tuple", "tie", "emplace",
        "insert", "try_emplace", "operator()"}


class Model:
    def __init__(self, P, E):
        self.P, self.E = P, E
        self.L = locks.Locks(P)
        self.C = c23.Model(P)
        self.callers = defaultdict(list)
        self.al = {}
        self.acc = {}
        self.ents = {}
        self.find_entities()
        self.find_accessors()

    # ---------------------------------------------------------- entities
    def global_(self, d):
        return d is not None and d.k == "var" and d.sc in ("global", "slocal", "member") and not d.tls and not d.cx and d.t is not None and \
            not (d.t.const and "*" not in d.t.s) and not d.co and not locks.sync(d.t) and (d.repo or d.sc == "slocal")

    def shared(self, d):
        return d.k == "var" and d.sc in ("global", "slocal", "member") and not d.tls

    def find_entities(self):
        P = self.P
        self.fields = {}
        for c in P.clss:
            if c.dep:
                continue
            fs = [x for x in c.fields if x.get("d") is not None or True]
            ts = {x["n"]: x.get("t") for x in fs}
            if any(t is not None and hasattr(t, "s") and locks.mutex(t) and "&" not in t.s and "*" not in t.s for t in ts.values()):
                self.fields[memo.strip(c.q)] = {n for n, t in ts.items() if t is not None and not locks.sync(t) and not locks.holds_guard(t)
                                                and "&" not in t.s}
        for f in P.fns.values():
            for n in f.walk():
                nd = f.N[n]
                if nd["k"] in ("call", "ctor"):
                    for g in P.targets(f, nd) or self.C.bodies(f, n):
                        self.callers[g.u].append((f, n))

    def entity(self, f, n):
        nd = f.N[n]
        d = nd.get("d")
        if nd["k"] == "ref" and self.global_(d):
            if d.sc == "slocal":        # one per instantiation; in a lambda it is the enclosing function's, whichever that is
                return ("g", memo.strip(f.q) + "::" + d.n, d.u or f.u)
            return ("g", memo.strip(d.q or d.n), d.id)
        if nd["k"] == "mem" and d is not None and d.k == "field":
            c = memo.strip(d.c or (d.q or "").rsplit("::", 1)[0] or "")
            if c in self.fields and d.n in self.fields[c]:
                return ("f", c + "::" + d.n, c)
        return None

    # ----------------------------------------------------------- aliases
    def aliases(self, f):
        """local variable id -> (entity, level) with level o(bject) or p(ointer, iterator)"""
        if f.u in self.al:
            return self.al[f.u]
        a = self.al[f.u] = {}
        for _ in range(3):
            ch = False
            for n in f.walk():
                nd = f.N[n]
                if nd["k"] != "var" or nd.get("d") is None or nd["d"].sc != "local" or nd["d"].id in a:
                    continue
                t = nd["d"].t
                c = [y for y in nd.get("c", ()) if y is not None and y >= 0]
                if t is None or not c:
                    continue
                s = t.s
                ref = "&" in s
                ptr = "*" in s or "iterator" in s or s.startswith(("std::pair<", "std::tuple<")) and locks.holds_guard(t)
                if not ref and not ptr:
                    continue
                x = self.denotes(f, c[-1])
                if x is None or (x[1] == "o" and not ref):
                    continue
                a[nd["d"].id] = x
                for b in nd.get("b") or ():
                    bd = b if hasattr(b, "id") else None
                    if bd is not None:
                        a[bd.id] = x
                ch = True
            if not ch:
                break
        return a

    def denotes(self, f, n, d=0):
        n = memo.unwrap(f, n)
        if n is None or n < 0 or d > 12:
            return None
        nd = f.N[n]
        k = nd["k"]
        c = [y for y in nd.get("c", ()) if y is not None and y >= 0]
        e = self.entity(f, n)
        if e is not None:
            return (e, "o")
        if k == "ref" and nd.get("d") is not None:
            return self.al.get(f.u, {}).get(nd["d"].id)
        if k == "un" and nd.get("o") in ("&", "*") and c:
            x = self.denotes(f, c[0], d + 1)
            if x is None:
                return None
            if nd["o"] == "&":
                return (x[0], "p")
            return (x[0], "o") if x[1] == "p" else None
        if k == "mem" and c:
            x = self.denotes(f, c[0], d + 1)
            if x is None:
                return None
            return (x[0], "o")
        if k == "cond" and len(c) == 3:
            return self.denotes(f, c[1], d + 1) or self.denotes(f, c[2], d + 1)
        if k == "idx" and c:
            return self.denotes(f, c[0], d + 1)
        if k == "call" and nd.get("d") is not None:
            o = nd.get("o")
            if o in ("*", "->") and c:
                x = self.denotes(f, c[0], d + 1)
                return (x[0], "o") if x is not None and x[1] == "p" else None
            tg = self.P.targets(f, nd)
            for g in tg:
                if g.u in self.acc:
                    return self.acc[g.u]
            if nd["d"].n in ELEM and c and not (tg and tg[0].f.startswith("SeQuant")):
                for y in c:
                    x = self.denotes(f, y, d + 1)
                    if x is not None:
                        it = nd.get("t") is not None and ("iterator" in nd["t"].s or "*" in nd["t"].s or "pair<" in nd["t"].s)
                        return (x[0], "p" if it else x[1])
                return None
        if k in ("ctor", "ilist") and c and nd.get("t") is not None and ("pair<" in nd["t"].s or "tuple<" in nd["t"].s or "*" in nd["t"].s):
            for y in c:
                x = self.denotes(f, y, d + 1)
                if x is not None and x[1] == "p":
                    return x
        return None

    def find_accessors(self):
        """functions that hand out the state itself"""
        self.out = {}
        for _ in range(4):
            ch = False
            for f in self.P.fns.values():
                if f.u in self.acc or f.t is None or not ("&" in f.t.s or "*" in f.t.s or locks.holds_guard(f.t) or
                                                          f.t.s.startswith("std::pair<")):
                    continue
                for n in f.walk():
                    if f.N[n]["k"] != "ret" or not f.N[n].get("c"):
                        continue
                    self.aliases(f)
                    x = self.denotes(f, f.N[n]["c"][0])
                    if x is None:
                        continue
                    if self.L.at(f, n) and not locks.holds_guard(f.t):
                        self.out.setdefault(f.u, (f, n, x))
                        continue
                    if f.t.s.startswith("std::pair<") and not locks.holds_guard(f.t):
                        continue
                    self.acc[f.u] = x
                    ch = True
                    break
            self.al = {}
            if not ch:
                break

    # ---------------------------------------------------------- accesses
    def accesses(self):
        """[(entity, f, node, write, keys)]"""
        out = []
        self.raw = []
        for f in self.P.fns.values():
            a = self.aliases(f)
            isacc = f.u in self.acc
            for n in f.walk():
                nd = f.N[n]
                x = None
                if nd["k"] in ("ref", "mem"):
                    e = self.entity(f, n)
                    if e is not None:
                        x = e
                    elif nd["k"] == "ref" and nd.get("d") is not None and nd["d"].id in a:
                        x = a[nd["d"].id][0]
                elif nd["k"] == "call" and nd.get("d") is not None:
                    for g in self.P.targets(f, nd):
                        if g.u in self.acc:
                            x = self.acc[g.u][0]
                if x is None:
                    continue
                for r in self.classify(f, n, x, isacc, 0):
                    out.append(r)
        return out

    def classify(self, f, n, x, isacc, depth):
        nd = f.N[n]
        if nd["k"] == "mem" and f.fk in ("ctor", "copy", "move", "dtor") and nd.get("c") and f.N[memo.unwrap(f, nd["c"][0])]["k"] == "this":
            return []
        # what happens to it
        prev, p = n, f.parent(n)
        while p is not None and p >= 0:
            pn = f.N[p]
            t = pn.get("t")
            if t is not None and locks.sync(t) and pn["k"] in ("mem", "un", "call", "idx"):
                return []
            if pn["k"] in ("sizeof", "typeid"):
                return []
            if pn["k"] == "cast" or pn["k"] == "mem" or pn["k"] == "un" and pn.get("o") in ("&", "*") or \
                    pn["k"] == "call" and pn.get("o") in ("*", "->") and pn["c"][0] == prev and self.denotes(f, p) is not None:
                prev, p = p, f.parent(p)
                continue
            break
        if p is None or p < 0:
            return [(x, f, n, False, self.L.at(f, n))]
        pn = f.N[p]
        if pn["k"] == "var" and pn.get("d") is not None and pn["d"].id in self.aliases(f):
            if self.denotes(f, prev) is not None:
                return []                                   # its uses count
        if pn["k"] == "ret" and isacc:
            return []
        if pn["k"] == "ctor" and isacc or pn["k"] == "call" and isacc and pn.get("d") is not None and pn["d"].n in ("make_pair", "make_tuple"):
            return []
        if pn["k"] == "call" and pn.get("d") is not None and pn["d"].n.startswith("atomic_"):
            return []
        if pn["k"] == "call" and pn.get("d") is not None and pn["d"].n == "get" and not pn.get("m") and \
                locks.holds_guard(f.N[prev].get("t")):
            return []
        if pn["k"] in ("call",) and depth < 2 and not (pn.get("m") and pn["c"][0] == prev):
            r = self.delegated(f, p, prev, x, depth)
            if r is not None:
                return r
        w = c20.usage(f, n) in ("write", "both")
        if nd["k"] == "ref" and nd["d"].id in self.aliases(f):
            w = self.written(f, prev, p)
        else:
            w = w and self.written(f, prev, p)
        return [(x, f, n, w, self.L.at(f, n))]

    def written(self, f, prev, p):
        pn = f.N[p]
        k = pn["k"]
        if k == "asg" or k == "call" and pn.get("o") in ("=", "+=", "-=", "*=", "/=", "|=", "&=", "<<=", ">>="):
            return pn["c"][0] == prev
        if k == "un":
            return pn.get("o") in ("++", "--", "post++", "post--")
        if k == "call" and pn.get("d") is not None:
            if pn.get("m") and pn["c"][0] == prev:
                if pn["d"].n in ("find", "begin", "end", "at", "get", "lower_bound", "upper_bound", "data", "front", "back", "value"):
                    return self.written_through(f, p)
                if pn["d"].n == "operator[]":
                    t = f.N[prev].get("t")
                    return t is not None and "map" in t.s or self.written_through(f, p)
                return not pn["d"].co and not pn.get("ce")
            i = pn["c"].index(prev) - (1 if pn.get("m") else 0)
            ps = pn["d"].p or ()
            if 0 <= i < len(ps) and ps[i] is not None:
                s = ps[i].s
                return ("&" in s and "&&" not in s or "*" in s) and not s.startswith("const ") and not ps[i].const
        if k == "idx":
            return self.written_through(f, p)
        return False

    def written_through(self, f, n):
        p = f.parent(n)
        while p is not None and p >= 0 and f.N[p]["k"] in ("cast", "mem"):
            n, p = p, f.parent(p)
        return p is not None and p >= 0 and self.written(f, n, p)

    def delegated(self, f, p, arg, x, depth):
        """state handed to a function by reference: its accesses there, locks named by the mutexes handed over with it"""
        pn = f.N[p]
        tg = [g for g in (self.P.targets(f, pn) or self.C.bodies(f, p)) if g.g is not None]
        if len(tg) != 1:
            return None
        g = tg[0]
        if g.u in self.acc:
            return None
        args = [y for y in pn["c"]]
        off = 1 if pn.get("m") or (pn.get("o") == "()" and g.lam) else 0
        i = args.index(arg) - off
        if not 0 <= i < len(g.p):
            return None
        t = g.p[i]["t"]
        if t is None or not ("&" in t.s or "*" in t.s):
            return None
        keymap = {}
        for j, q in enumerate(g.p):
            if j + off < len(args) and q["t"] is not None and locks.mutex(q["t"]):
                keymap[("v", q["d"].id)] = self.L.key(f, args[j + off])
        here = self.L.at(f, p)
        out = []
        pd = g.p[i]["d"]
        for n in g.walk():
            nd = g.N[n]
            if nd["k"] == "ref" and nd.get("d") is pd:
                par = g.N[g.parent(n)] if g.parent(n) is not None and g.parent(n) >= 0 else None
                if par is not None and par["k"] in ("ilist", "ctor"):
                    continue
                for e, h, m, w, ks in self.classify(g, n, x, False, depth + 1):
                    ks = frozenset(keymap.get(q, q) for q in ks) | here
                    # the code that must hold the lock is the one that owns the state unless this function locks itself
                    out.append((e, h, m, w, ks) if keymap else (e, f, p, w, ks))
        return out

    # ----------------------------------------------------------- workers
    def workers(self):
        """functions that worker threads can reach: u -> (caller, node)"""
        seen = {}
        st = []
        for f in self.P.fns.values():
            for n in f.walk():
                if f.N[n]["k"] not in ("ctor", "call"):
                    continue
                s = self.C.starts(f, n)
                if s is None:
                    continue
                for g in self.C.callables(f, s[1]):
                    if g.u not in seen:
                        seen[g.u] = (f, n)
                        st.append(g)
        self.starts = len(st)
        while st:
            f = st.pop()
            for n in f.walk():
                if f.N[n]["k"] not in ("ctor", "call"):
                    continue
                for g in self.P.targets(f, f.N[n]) or self.C.bodies(f, n):
                    if g.u not in seen:
                        seen[g.u] = (f, n)
                        st.append(g)
        return seen

    def internal(self, f):
        q = f.q or ""
        return f.lam or "::detail::" in q or "(anonymous" in q or (f.acc in ("private", "protected") and f.fk is None) or \
            bool(getattr(f, "st", None)) and f.c is None

    def chain(self, W, u):
        out = []
        for _ in range(40):
            if u not in W:
                break
            f, n = W[u]
            out.append(memo.strip(f.q))
            if f.u == u:
                break
            u = f.u
        return out


def analyse(P, E=None, rep=None):
    M = Model(P, E)
    found = []
    cnt = {"process-wide variables and fields of classes with a mutex accessed": 0, "accesses classified": 0, "accesses under a lock": 0,
           "state with a lock": 0, "functions worker threads reach": 0, "explicit lock calls": 0}
    around = {}

    def held_around(f, n, depth=0):
        """locks held at n or, in an internal helper, by code that calls it"""
        ks = set(M.L.at(f, n))
        if depth < 4 and M.internal(f):
            if f.u not in around:
                around[f.u] = set()
                for g, m in M.callers.get(f.u, ()):
                    if g.u != f.u:
                        around[f.u] |= held_around(g, m, depth + 1)
            ks |= around[f.u]
        return ks

    W = M.workers()
    cnt["functions worker threads reach"] = len(W)
    by = defaultdict(list)
    for x, f, n, w, ks in M.accesses():
        by[x[:2] if x[0] == "f" else x].append((f, n, w, ks))
    cnt["process-wide variables and fields of classes with a mutex accessed"] = len(by)
    M.by = by
    for x, accs in sorted(by.items(), key=lambda z: str(z[0])):
        cnt["accesses classified"] += len(accs)
        keys = defaultdict(int)
        for f, n, w, ks in accs:
            for k in set(ks) | held_around(f, n):
                keys[k] += 1
        # a lock that happens to be held around a call does not guard what is only read there
        if x[0] == "f":
            keys = {k: c for k, c in keys.items() if k[0] == "f"}
        guards = [k for k, c in keys.items()]
        wr = any(w for f, n, w, ks in accs)
        name = x[1]
        if guards and wr and (any(ks or held_around(f, n) for f, n, w, ks in accs if w) or 2 * sum(1 for a in accs if a[3]) >= len(accs)):
            wk = defaultdict(int)
            for f, n, w, ks in accs:
                for k in set(ks) | held_around(f, n):
                    if k in guards:
                        wk[k] += 1
            K = max(sorted(wk, key=str), key=lambda k: wk[k])
            cnt["state with a lock"] += 1
            if rep is not None:
                rep.sample("%s: %d accesses, %d under its lock" % (name, len(accs), wk[K]))
            for f, n, w, ks in accs:
                if K in ks:
                    cnt["accesses under a lock"] += 1
                    continue
                for g, m in unlocked(M, f, n, K):
                    found.append((g, m, "unlocked:" + name, "%s %s without the lock that protects it" %
                                  ("writes" if w else "reads", name)))
            for u, (f, n, y) in M.out.items():
                if (y[0][:2] if y[0][0] == "f" else y[0]) == x and y[1] == "o" and not f.t.const and "const" not in f.t.s.split("<")[0] and \
                        not f.t.s.startswith("const"):
                    found.append((f, n, "out:" + name, "hands out a modifiable reference to %s, whose lock is released on return" % name))
        elif x[0] == "g" and wr:
            for f, n, w, ks in accs:
                if w and f.u in W and not ks:
                    found.append((f, n, "worker:" + name, "writes %s, which has no lock, in code worker threads reach (%s)" %
                                  (name, " <- ".join(M.chain(W, f.u)[:6]))))
    rawlocks(M, found, cnt)
    idle(M, found, cnt)
    lost(M, found, cnt)
    return found, cnt


def lost(M, found, cnt):
    """an atomic stored with a value computed from an earlier load of it: updates by other threads in between are lost"""
    for f in M.P.fns.values():
        if f.g is None:
            continue
        loads, stores = defaultdict(list), []
        for n in f.walk():
            nd = f.N[n]
            d = nd.get("d")
            k = None
            if nd["k"] == "ref" and d is not None and locks.sync(d.t) and "atomic" in d.t.s and \
                    (M.shared(d) or d.k == "parm" and "&" in d.t.s or d.k == "var" and "&" in d.t.s):
                k = ("v", d.id)
            elif nd["k"] == "call" and d is not None and nd.get("t") is not None and locks.sync(nd["t"]) and "atomic" in nd["t"].s and \
                    len(nd.get("c") or ()) <= 1:
                k = ("c", d.u)
            if k is None:
                continue
            p = f.parent(n)
            prev = n
            while p is not None and p >= 0 and f.N[p]["k"] == "cast" and locks.sync(f.N[p].get("t")):
                prev, p = p, f.parent(p)
            if p is None or p < 0:
                continue
            pn = f.N[p]
            pd = pn.get("d")
            if pn["k"] == "call" and pd is not None and pn["c"][0] == prev:
                if pd.n in ("store", "operator=") or pn.get("o") == "=":
                    stores.append((k, p, pn["c"][1] if len(pn["c"]) > 1 else None))
                elif pd.n == "load" or pd.n.startswith("operator ") or pd.n.startswith("operator") and pd.k == "conv":
                    loads[k].append(p)
            elif pn["k"] == "cast" and not locks.sync(pn.get("t")):
                loads[k].append(p)
        for k, p, v in stores:
            cnt["atomic stores"] = cnt.get("atomic stores", 0) + 1
            if not loads.get(k) or v is None:
                continue
            # what the value is computed from
            src, work, vs = set(), [v], set()
            while work:
                y = work.pop()
                for z in f.subtree(y):
                    src.add(z)
                    zd = f.N[z].get("d")
                    if f.N[z]["k"] == "ref" and zd is not None and zd.id not in vs and zd.k == "var" and zd.sc == "local":
                        vs.add(zd.id)
                        for w in f.walk():
                            wn = f.N[w]
                            if wn["k"] == "var" and wn.get("d") is zd and wn.get("c"):
                                work.append(wn["c"][-1])
                            elif wn["k"] == "asg" and f.N[memo.unwrap(f, wn["c"][0])].get("d") is zd:
                                work.append(wn["c"][1])
            dep = [x for x in loads[k] if x in src]
            for x in dep:
                if M.L.at(f, x) & M.L.at(f, p):
                    continue
                found.append((f, p, "lost", "stores into an atomic a value computed from an earlier load of it: an update made in between "
                              "by another thread is lost"))
                break


def idle(M, found, cnt):
    """a mutex that nothing ever locks protects nothing"""
    P = M.P
    used = set()
    decl = {}
    for f in P.fns.values():
        for n in f.walk():
            nd = f.N[n]
            d = nd.get("d")
            if nd["k"] == "mem" and d is not None and d.k == "field" and locks.mutex(d.t):
                used.add(memo.strip(d.c or "") + "::" + d.n)
            elif nd["k"] == "ref" and d is not None and d.k == "var" and locks.mutex(d.t):
                used.add(d.id)
            elif nd["k"] == "var" and d is not None and locks.mutex(d.t) and "&" not in d.t.s and "*" not in d.t.s:
                decl.setdefault(d.id, (f, n, d))
    for i, (f, n, d) in sorted(decl.items()):
        cnt["mutexes declared"] = cnt.get("mutexes declared", 0) + 1
        if i not in used:
            found.append((f, n, "idle:" + d.n, "the mutex %s is never locked" % d.n))
    for c in P.clss:
        if c.dep or not memo.strip(c.q) in M.fields:
            continue
        for x in c.fields:
            t = x.get("t")
            if t is not None and locks.mutex(t) and "&" not in t.s and "*" not in t.s:
                cnt["mutexes declared"] = cnt.get("mutexes declared", 0) + 1
                if memo.strip(c.q) + "::" + x["n"] not in used:
                    m = next((g for g in P.fns.values() if memo.strip(g.q).startswith(memo.strip(c.q) + "::")), None)
                    if m is not None:
                        found.append((m, None, "idle:" + x["n"], "the mutex %s::%s is never locked" % (memo.strip(c.q), x["n"])))


def unlocked(M, f, n, K, depth=0):
    """the places that should have held the lock: the function itself, or the callers of an internal helper"""
    if depth > 4:
        return [(f, n)]
    if not M.internal(f):
        cs = [c for c in M.callers.get(f.u, ()) if c[0].u != f.u]
        return [] if cs and all(K in M.L.at(g, m) for g, m in cs) else [(f, n)]
    if f.lam:
        for g, m in M.callers.get(f.u, ()):
            pass
        h = M.P.fns.get(f.par) if isinstance(f.par, str) else None
        if h is not None:
            for m in h.walk():
                if h.N[m]["k"] == "lambda" and any(z.u == f.u for z in M.P.lambdas_of(h.N[m])):
                    if K in M.L.at(h, m):
                        return []
    cs = M.callers.get(f.u, ())
    if not cs:
        return [(f, n)] if f.lam or f.fk == "dtor" else []
    out = []
    for g, m in cs:
        if g.u == f.u or K in M.L.at(g, m):
            continue
        out += unlocked(M, g, m, K, depth + 1)
    return out


def rawlocks(M, found, cnt):
    for f in M.P.fns.values():
        if f.g is None:
            continue
        raw = [n for n in f.walk() if f.N[n]["k"] == "call" and f.N[n].get("m") and f.N[n].get("d") is not None and
               f.N[n]["d"].n == "lock" and "mutex" in (f.N[n]["d"].q or "")]
        if not raw:
            continue
        cnt["explicit lock calls"] += len(raw)
        may = mayheld(M, f)
        for e, n, keys in may:
            if e == "exit":
                found.append((f, raw[0], "left", "a mutex locked explicitly is still locked on a path to the end of the function"))
                break
        for e, n, keys in may:
            if e == "throw":
                found.append((f, n, "left", "a mutex locked explicitly stays locked if this call throws"))
                break


def mayheld(M, f):
    """[(kind, node, keys)] points where an explicitly locked mutex may be left locked"""
    bl = {b["i"]: b for b in f.g["bl"]}
    inn = {f.g["en"]: frozenset()}
    work = [f.g["en"]]
    out = []
    n = 0
    while work and n < 3000:
        n += 1
        i = work.pop(0)
        st = inn[i]
        b = bl[i]
        thrown = False
        for e in b["e"]:
            if isinstance(e, int):
                st = frozenset(x for x in M.L.step(f, e, st) if x[0] == "raw")
                if f.N[e]["k"] == "throw":
                    thrown = True
        if b.get("nr") or thrown:
            continue
        for s in b["s"]:
            if s is None or s not in bl:
                continue
            new = st if s not in inn else inn[s] | st
            if s not in inn or new != inn[s]:
                inn[s] = new
                work.append(s)
    for i, st in sorted(inn.items()):
        b = bl[i]
        for e in b["e"]:
            if isinstance(e, int):
                nd = f.N[e]
                if st and not (nd["k"] == "call" and nd.get("d") is not None and nd["d"].n in ("unlock", "lock")):
                    if M.C.throws(f, e) and not any(f.N[h].get("all") for t, hs in M.C.guards(f, e) for h in hs):
                        out.append(("throw", e, st))
                st = frozenset(x for x in M.L.step(f, e, st) if x[0] == "raw")
        if i == f.g["ex"] and st:
            out.append(("exit", None, st))
    return out


def run(pid):
    rep = Report(pid, RULE)
    S = selftest.program("locksets")
    found, _ = analyse(S)
    hit = {p for f, n, k, t in found for p in memo.strip(f.q).replace("(", "::").split("::") if p.startswith(("bad", "good"))}
    names = {p for f in S.fns.values() for p in memo.strip(f.q).replace("(", "::").split("::") if p.startswith(("bad", "good"))}
    want = {n for n in names if n.startswith("bad")}
    good = {h for h in hit if h.startswith("good")}
    rep.selftest("planted defects are found: " + ", ".join(sorted(want)), len(want) > 8 and want <= hit or print("missed", want - hit))
    rep.selftest("correct variants are quiet", not good or print("noise", good))
    P = facts.load()
    found, cnt = analyse(P, None, rep)
    for k, v in cnt.items():
        rep.count(k, v)
    rep.floor("accesses classified", 150)
    rep.floor("state with a lock", 4)
    rep.floor("accesses under a lock", 20)
    rep.floor("functions worker threads reach", 500)
    for f, n, k, t in found:
        rep.find("%s|%s" % (memo.strip(f.q), k), f.loc(n) if n is not None else "%s:%s" % (f.f, f.l), "%s: %s" % (memo.strip(f.q), t))
    return rep.finish()
