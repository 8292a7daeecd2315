"""Which locks are certainly held at each point of a function."""
from . import memo

GUARDS = ("std::scoped_lock<", "std::lock_guard<", "std::unique_lock<", "std::shared_lock<")
SYNC = ("std::mutex", "std::recursive_mutex", "std::shared_mutex", "std::timed_mutex", "std::recursive_timed_mutex", "std::shared_timed_mutex",
        "std::condition_variable", "std::once_flag", "std::atomic", "std::condition_variable_any")


def bare(t):
    if t is None:
        return ""
    s = t.s
    for w in ("const ", "volatile ", "struct ", "class "):
        s = s.replace(w, "")
    return s.replace("&", "").replace("*", "").strip()


def sync(t):
    b = bare(t)
    return b.startswith(SYNC) or b.startswith("atomic<")


def mutex(t):
    b = bare(t)
    return b.endswith("mutex") and b.startswith("std::")


def guard(t):
    b = bare(t)
    return b.startswith(GUARDS)


def holds_guard(t):
    """a type that carries a lock (a pair or tuple with one)"""
    b = bare(t)
    return guard(t) or b.startswith(("std::pair<", "std::tuple<")) and any(g in b for g in GUARDS)


class Locks:
    def __init__(self, P):
        self.P = P
        self._h = {}
        self._ret = {}

    # -------------------------------------------------------------- names
    def key(self, f, n, d=0):
        """identity of a mutex expression"""
        n = memo.unwrap(f, n)
        if n is None or n < 0 or d > 8:
            return None
        nd = f.N[n]
        k = nd["k"]
        if k == "ref" and nd.get("d") is not None:
            x = nd["d"]
            if x.k in ("var", "parm", "bind") and x.sc in ("local", None) and x.t is not None and ("&" in x.t.s or "*" in x.t.s):
                i = self.init(f, x)
                if i is not None:
                    r = self.key(f, i, d + 1)
                    if r is not None:
                        return r
            return ("v", x.id)
        if k == "mem" and nd.get("d") is not None and nd.get("c"):
            return ("f", nd["d"].u if nd["d"].u else nd["d"].id)
        if k == "call" and nd.get("d") is not None:
            if nd.get("o") in ("*", "->") and nd.get("c"):
                return self.key(f, nd["c"][0], d + 1)
            for g in self.P.targets(f, nd):
                for x in g.walk():
                    if g.N[x]["k"] == "ret" and g.N[x].get("c"):
                        r = self.key(g, g.N[x]["c"][0], d + 1)
                        if r is not None:
                            return r
            return ("c", nd["d"].u)
        if k == "un" and nd.get("o") in ("*", "&") and nd.get("c"):
            return self.key(f, nd["c"][0], d + 1)
        return None

    def init(self, f, d):
        for n in f.walk():
            nd = f.N[n]
            if nd["k"] == "var" and nd.get("d") is d:
                c = [y for y in nd.get("c", ()) if y is not None and y >= 0]
                return c[-1] if c else None
        return None

    def returned(self, g):
        """mutexes a function has locked in the guard it returns"""
        if g.u in self._ret:
            return self._ret[g.u]
        self._ret[g.u] = frozenset()
        out = set()
        if g.t is not None and holds_guard(g.t):
            for n in g.walk():
                nd = g.N[n]
                if nd["k"] == "ctor" and guard(nd.get("t")) and nd.get("c"):
                    out |= self.locked(g, n)
        self._ret[g.u] = frozenset(out)
        return self._ret[g.u]

    def locked(self, f, n):
        """keys locked by the guard constructed at node n"""
        out = set()
        nd = f.N[n]
        if nd["k"] in ("cast", "ilist") and nd.get("c"):
            return self.locked(f, nd["c"][0])
        if nd["k"] == "call":
            for g in self.P.targets(f, nd):
                out |= self.returned(g)
            if not out and nd.get("d") is not None and nd["d"].n in ("get", "move", "forward"):
                return out
            return out
        if nd["k"] != "ctor":
            return out
        c = [y for y in nd.get("c", ()) if y is not None and y >= 0]
        for y in c:
            t = f.N[y].get("t")
            s = t.s if t is not None else ""
            if "defer_lock" in s or "try_to_lock" in s:
                return set()
        for y in c:
            u = memo.unwrap(f, y)
            if u is None or u < 0:
                continue
            t = f.N[u].get("t")
            if t is not None and (mutex(t) or f.N[u]["k"] in ("ref", "mem", "call") and not guard(t)):
                k = self.key(f, u)
                if k is not None:
                    out.add(k)
            elif f.N[u]["k"] in ("ctor", "call"):
                out |= self.locked(f, u)
        return out

    def root(self, f, d):
        """the variable a structured binding belongs to"""
        if d.k != "bind":
            return d
        for n in f.walk():
            nd = f.N[n]
            if nd["k"] != "var" or nd.get("d") is None:
                continue
            if d in (nd.get("b") or ()):
                return nd["d"]
        return d

    # ----------------------------------------------------------- dataflow
    def held(self, f):
        """node -> frozenset of held mutex keys; also the raw (unguarded) ones"""
        if f.u in self._h:
            return self._h[f.u]
        at = {}
        self._h[f.u] = at
        if f.g is None:
            return at
        if not self.touches(f):
            return at
        bl = {b["i"]: b for b in f.g["bl"]}
        inn = {f.g["en"]: frozenset()}
        work = [f.g["en"]]
        n = 0
        while work and n < 5000:
            n += 1
            i = work.pop(0)
            st = self.block(f, bl[i], inn[i], None)
            b = bl[i]
            if b.get("nr"):
                continue
            for s in b["s"]:
                if s is None or s not in bl:
                    continue
                new = st if s not in inn else inn[s] & st
                if s not in inn or new != inn[s]:
                    inn[s] = new
                    work.append(s)
        for i, st in inn.items():
            self.block(f, bl[i], st, at)
        self._exit = inn.get(f.g["ex"], frozenset())
        at["exit"] = self._exit
        return at

    def touches(self, f):
        for n in f.walk():
            nd = f.N[n]
            if nd["k"] == "var" and nd.get("d") is not None and holds_guard(nd["d"].t):
                return True
            if nd["k"] == "call" and nd.get("d") is not None and nd["d"].n in ("lock", "try_lock") and nd.get("m"):
                return True
        return False

    def block(self, f, b, st, at):
        for e in b["e"]:
            if isinstance(e, int):
                if at is not None:
                    at[e] = st if e not in at else at[e] & st
                st = self.step(f, e, st)
            elif e[0] == "dtor":
                st = frozenset(x for x in st if x[0] != e[1].id)
        return st

    def step(self, f, n, st):
        nd = f.N[n]
        if nd["k"] == "var" and nd.get("d") is not None and holds_guard(nd["d"].t) and nd["d"].sc == "local":
            c = [y for y in nd.get("c", ()) if y is not None and y >= 0]
            if c and not ("&" in nd["d"].t.s and f.N[memo.unwrap(f, c[-1])]["k"] in ("ref", "mem")):
                return st | {(nd["d"].id, k) for k in self.locked(f, c[-1])}
        if nd["k"] == "call" and nd.get("m") and nd.get("d") is not None and nd["d"].n in ("lock", "unlock", "release"):
            o = memo.unwrap(f, nd["c"][0])
            on = f.N[o]
            t = on.get("t")
            if guard(t) and on["k"] == "ref":
                d = self.root(f, on["d"])
                if nd["d"].n == "lock":
                    i = self.init(f, d)
                    ks = set()
                    if i is not None:
                        for y in f.subtree(i):
                            yt = f.N[y].get("t")
                            if yt is not None and mutex(yt) and f.N[y]["k"] in ("ref", "mem", "call"):
                                k = self.key(f, y)
                                if k is not None:
                                    ks.add(k)
                    return st | {(d.id, k) for k in ks}
                return frozenset(x for x in st if x[0] != d.id)
            q = nd["d"].q or ""
            if "mutex" in q or mutex(t):
                k = self.key(f, nd["c"][0])
                if nd["d"].n == "lock":
                    return st | {("raw", k)}
                return frozenset(x for x in st if x != ("raw", k))
        return st

    def at(self, f, n):
        """mutexes held when node n is evaluated"""
        h = self.held(f)
        if not h:
            return frozenset()
        par = f.par_map
        while n is not None and n >= 0 and n not in h:
            n = par.get(n)
        if n is None or n < 0:
            return frozenset()
        return frozenset(k for _, k in h[n])
