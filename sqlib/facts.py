"""Program model built from the extractor's facts: types, declarations,
classes, functions (syntax tree + CFG), call graph."""
import json
import sys
from collections import defaultdict

from . import extract as X
from .extract import Unanalysable

sys.setrecursionlimit(20000)


class Type:
    __slots__ = ("s", "f", "r", "a", "w", "lam")

    def __init__(self, s, f, r, a, w, lam):
        self.s, self.f, self.r, self.a, self.w, self.lam = s, f, r, a, w, lam

    lref = property(lambda s: "&" in s.f)
    rref = property(lambda s: "R" in s.f)
    ref = property(lambda s: "&" in s.f or "R" in s.f)
    const = property(lambda s: "c" in s.f)          # (referred) object is const
    ptr = property(lambda s: "*" in s.f)
    pconst = property(lambda s: "k" in s.f)         # pointee is const
    integer = property(lambda s: "i" in s.f)
    floating = property(lambda s: "f" in s.f)
    boolean = property(lambda s: "b" in s.f)
    enum = property(lambda s: "e" in s.f)
    dep = property(lambda s: "D" in s.f)

    def __repr__(self):
        return self.s


class Decl:
    __slots__ = ("k", "n", "q", "u", "t", "p", "pn", "f", "l", "repo", "c", "st",
                 "co", "vi", "rv", "nr", "nd", "op", "ck", "sc", "tls", "mu", "of",
                 "x", "v", "lam", "cx", "id", "nx")

    # not the address: iteration over sets must not depend on memory layout
    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return "<%s %s>" % (self.k, self.q or self.n)

    def loc(self):
        return "%s:%s" % (self.f, self.l)


class Cls:
    pass


class Fn:
    """a function body: N is the node list (dicts); node['d'] is a Decl,
    node['t'] a Type"""

    def __init__(self):
        self._par = None
        self._blk = None

    def loc(self, n=None):
        if n is None:
            return "%s:%s" % (self.f, self.l)
        return "%s:%s" % (self.f, self.line(n))

    def line(self, n):
        N = self.N
        seen = 0
        while n is not None and seen < 50:
            if N[n].get("l"):
                return N[n]["l"]
            n = self.parent(n)
            seen += 1
        return self.l

    @property
    def par_map(self):
        if self._par is None:
            p = {}
            for i, n in enumerate(self.N):
                for c in kids(n):
                    if c >= 0 and c not in p:
                        p[c] = i
            self._par = p
        return self._par

    def parent(self, n):
        return self.par_map.get(n)

    def ancestors(self, n):
        n = self.parent(n)
        while n is not None:
            yield n
            n = self.parent(n)

    def short(self):
        q = self.q
        return q

    def subtree(self, n, into_lambda=False):
        st = [n]
        seen = set()
        while st:
            x = st.pop()
            if x is None or x < 0 or x in seen:
                continue
            seen.add(x)
            yield x
            st.extend(reversed(kids(self.N[x])))

    def walk(self):
        """all nodes reachable from the body and the ctor initialisers"""
        seen = set()
        roots = ([self.b] if self.b is not None else []) + \
            [i["e"] for i in self.inits if i.get("e", -1) >= 0]
        for r in roots:
            for x in self.subtree(r):
                if x not in seen:
                    seen.add(x)
                    yield x

    def __repr__(self):
        return "<fn %s %s>" % (self.q, self.loc())


def kids(n):
    out = list(n.get("c", ()))
    for k in ("ce", "in", "cv", "v"):
        v = n.get(k)
        if isinstance(v, int) and n["k"] != "int" and n["k"] != "bool" and \
                n["k"] != "chr":
            if k == "v" and n["k"] != "catch":
                continue
            out.append(v)
    if n["k"] == "lambda":
        for c in n.get("cap", ()):
            if "e" in c:
                out.append(c["e"])
    if n["k"] == "var":
        out.extend(n.get("hv", ()))
    if n["k"] == "rfor":
        out.extend(n.get("im", ()))
    return out


class Program:
    def __init__(self, files):
        self.types = {}
        self.decls = {}
        self.fns = {}
        self.depfns = {}
        self.cls = {}          # qualified name -> Cls (non dependent preferred)
        self.clss = []
        self.enums = {}
        self.gvars = {}
        self.gvarlist = []
        self._nd = 0
        for f in files:
            self._load(f)
        self._link()

    # ------------------------------------------------------------- loading
    def _load(self, path):
        T = {}
        D = {}
        raw_t = {}
        raw_d = {}
        later = []
        ended = False
        for line in open(path):
            o = json.loads(line)
            K = o["K"]
            if K == "type":
                raw_t[o["i"]] = o
            elif K == "decl":
                raw_d[o["i"]] = o
            elif K == "end":
                ended = True
            elif K != "tu":
                later.append(o)
        if not ended:
            raise Unanalysable("truncated facts " + path)

        def ty(i):
            if i is None or i < 0:
                return None
            t = T.get(i)
            if t is not None:
                return t
            o = raw_t[i]
            key = (o["s"], o.get("f", ""), o.get("lam"))
            t = self.types.get(key)
            if t is None:
                t = Type(o["s"], o.get("f", ""), o.get("r"), (), o.get("w"), o.get("lam"))
                self.types[key] = t
                T[i] = t
                t.a = tuple(ty(a) for a in o.get("a", ()))
            T[i] = t
            return t

        def dc(i):
            if i is None or i < 0:
                return None
            d = D.get(i)
            if d is not None:
                return d
            o = raw_d[i]
            u = o.get("u")
            key = None
            if u:
                key = u
            elif o["k"] == "field":
                key = ("f", o["c"], o["n"], o.get("l"), ty(o["t"]).s)
            elif o["k"] == "enumc":
                key = ("e", o["q"])
            if key is not None and key in self.decls:
                d = self.decls[key]
                D[i] = d
                return d
            d = Decl()
            for s in Decl.__slots__:
                setattr(d, s, o.get(s))
            D[i] = d
            self._nd += 1
            d.id = self._nd
            d.t = ty(o.get("t"))
            if "p" in o:
                d.p = tuple(ty(x) for x in o["p"])
            if d.of is not None:
                d.of = dc(d.of)
            if key is not None:
                self.decls[key] = d
            return d

        def nodes(N):
            for n in N:
                if "d" in n:
                    n["d"] = dc(n["d"])
                if "t" in n:
                    n["t"] = ty(n["t"])
                if "at" in n:
                    n["at"] = ty(n["at"])
                if "ct" in n:
                    n["ct"] = ty(n["ct"])
                k = n["k"]
                if k == "lambda":
                    for c in n["cap"]:
                        if "d" in c:
                            c["d"] = dc(c["d"])
                elif k == "var" and "b" in n:
                    n["b"] = [dc(x) for x in n["b"]]
                elif k == "ilist" and "fs" in n:
                    n["fs"] = [dc(x) for x in n["fs"]]
            return N

        for o in later:
            K = o["K"]
            if K == "fn":
                u = o["u"]
                tab = self.depfns if o.get("dep") else self.fns
                if u in tab:
                    old = tab[u]
                    if not (o["f"] == old.f and o["l"] == old.l):
                        u = u + "@@%s:%d" % (o["f"], o["l"])
                        if u in tab:
                            continue
                    else:
                        continue
                f = Fn()
                f.u = u
                f.d = dc(o["d"])
                f.n = o["n"]
                f.q = o["q"]
                f.f = o["f"]
                f.l = o["l"]
                f.el = o.get("el", o["l"])
                f.dep = o.get("dep", 0)
                f.imp = o.get("imp", 0)
                f.dflt = o.get("dflt", 0)
                f.inst = o.get("inst", 0)
                f.nr = o.get("nr", 0)
                f.nx = o.get("nx", 0)
                f.t = ty(o.get("t"))
                f.p = [{"d": dc(p["d"]), "t": ty(p["t"]), "n": p["n"], "df": p.get("df")}
                       for p in o["p"]]
                f.par = o.get("par")
                f.c = o.get("c")
                f.ct = ty(o.get("ct"))
                f.st = o.get("st", 0)
                f.co = o.get("co", 0)
                f.vi = o.get("vi", 0)
                f.lam = o.get("lam", 0)
                f.acc = o.get("acc")
                f.ov = o.get("ov", [])
                f.fk = o.get("fk")
                f.op = o.get("op")
                f.inits = [dict(i, d=dc(i["d"]) if "d" in i else None,
                                b=ty(i["b"]) if "b" in i else None)
                           for i in o.get("inits", [])]
                f.N = nodes(o.get("N", []))
                f.b = o.get("b")
                f.g = o.get("g")
                if f.g:
                    for b in f.g["bl"]:
                        b["e"] = [["init", dc(e[1]) if e[1] >= 0 else None, e[2]]
                                  if isinstance(e, list) and e[0] == "init" else
                                  ["dtor", dc(e[1])] if isinstance(e, list) else e
                                  for e in b["e"]]
                tab[u] = f
            elif K == "cls":
                c = Cls()
                c.q = o["q"]
                c.ty = ty(o["ty"])
                c.f = o["f"]
                c.l = o["l"]
                c.dep = o.get("dep", 0)
                c.spec = o.get("spec", 0)
                c.lam = o.get("lam", 0)
                c.abs = o.get("abs", 0)
                c.agg = o.get("agg", 0)
                c.bases = [(b.get("q"), ty(b["t"])) for b in o["bases"]]
                c.fields = [dict(x, d=dc(x["d"]), t=ty(x["t"])) for x in o["fields"]]
                c.methods = [dict(m, d=dc(m["d"])) for m in o["methods"]]
                key = (c.ty.s if c.ty else c.q, c.f, c.l, c.dep)
                if key in self.gvars:
                    continue
                self.gvars[key] = c
                self.clss.append(c)
                old = self.cls.get(c.q)
                if old is None or (old.dep and not c.dep):
                    self.cls[c.q] = c
            elif K == "enum":
                self.enums.setdefault(o["q"], o)
            elif K == "gvar":
                key = ("g", o["q"], o["f"], o["l"])
                if key in self.gvars:
                    continue
                g = Fn()
                g.q, g.f, g.l = o["q"], o["f"], o["l"]
                g.d = dc(o["d"])
                g.t = ty(o["t"])
                g.co = o.get("co", 0)
                g.sl = o.get("sl", 0)
                g.tls = o.get("tls", 0)
                g.par = o.get("par")
                g.N = nodes(o.get("N", []))
                g.b = o.get("b")
                g.inits = []
                self.gvars[key] = g
                self.gvarlist.append(g)

    # ------------------------------------------------------------- linking
    def _link(self):
        self.overriders = defaultdict(set)   # u -> set of u overriding (transitive)
        direct = defaultdict(set)
        for c in self.clss:
            for m in c.methods:
                for o in m.get("ov", ()):
                    direct[o].add(m["u"])
        for u in list(direct):
            seen = set()
            st = list(direct[u])
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                st.extend(direct.get(x, ()))
            self.overriders[u] = seen
        self.bases = defaultdict(set)
        for c in self.clss:
            for q, _ in c.bases:
                if q:
                    self.bases[c.q].add(q)
        self.derived = defaultdict(set)
        for c, bs in self.bases.items():
            for b in bs:
                self.derived[b].add(c)
        self.bynm = defaultdict(list)
        for f in self.fns.values():
            self.bynm[f.q].append(f)
        self.lam_in = defaultdict(list)
        for f in self.fns.values():
            if f.par:
                self.lam_in[f.par].append(f)

    def all_derived(self, q):
        out = set()
        st = [q]
        while st:
            x = st.pop()
            for y in self.derived.get(x, ()):
                if y not in out:
                    out.add(y)
                    st.append(y)
        return out

    def all_bases(self, q):
        out = set()
        st = [q]
        while st:
            x = st.pop()
            for y in self.bases.get(x, ()):
                if y not in out:
                    out.add(y)
                    st.append(y)
        return out

    def named(self, q):
        """functions whose qualified name (template arguments dropped) is q"""
        return self.bynm.get(q, [])

    def fn_of(self, d):
        if d is None or not d.u:
            return None
        return self.fns.get(d.u)

    def targets(self, fn, n):
        """repo function bodies a call/ctor node may run (virtual included)"""
        nd = fn.N[n] if isinstance(n, int) else n
        d = nd.get("d")
        out = []
        if d is None or d.k not in ("func", "method", "ctor", "dtor", "conv"):
            return out
        f = self.fns.get(d.u)
        if f is not None:
            out.append(f)
        if d.vi and not nd.get("nv"):
            for u in self.overriders.get(d.u, ()):
                g = self.fns.get(u)
                if g is not None:
                    out.append(g)
        return out

    def byname(self):
        """functions by qualified name without template arguments"""
        if getattr(self, "_byname", None) is None:
            from . import memo
            self._byname = defaultdict(list)
            for f in self.fns.values():
                self._byname[memo.strip(f.q)].append(f)
        return self._byname

    def lambdas_of(self, nd):
        """bodies of a lambda node (generic lambdas: every instantiation)"""
        out = []
        for k in [nd["fk"]] + nd.get("sp", []):
            f = self.fns.get(k)
            if f is not None:
                out.append(f)
        return out


_prog = None


def load():
    global _prog
    if _prog is None:
        _prog = Program(X.extract())
    return _prog
