"""Abstract execution of comparison functions over an abstraction of their inputs.

A comparison of two objects is run with the objects replaced by "side 1" and
"side 2": all that is known about them is, per member, whether the two sides are
equal, less or greater.  What a comparison of derived quantities (a size, a hash)
yields is left open and enumerated.  No concrete value is ever used; the body's
syntax tree is interpreted over this finite domain, so the outcome holds for all
inputs.
"""
from . import memo

CMP = {"==", "!=", "<", ">", "<=", ">="}
INV = {"eq": "eq", "lt": "gt", "gt": "lt"}
LOSSY = {"size", "length", "empty", "count", "hash_value", "rank", "bra_rank", "ket_rank",
         "aux_rank", "front", "back"}
EQALG = {"equal"}
LEXALG = {"lexicographical_compare"}


class Unsup(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


def sides(t):
    if not isinstance(t, tuple):
        return frozenset()
    if t[0] == "o":
        return frozenset([t[1]])
    s = frozenset()
    for x in t[1:]:
        if isinstance(x, tuple):
            s |= sides(x)
    return s


def key(t):
    if not isinstance(t, tuple):
        return t
    if t[0] == "o":
        return ("o", "*")
    return tuple(key(x) if isinstance(x, tuple) else x for x in t)


class Oracle:
    """decisions, enumerated depth first"""

    def __init__(self):
        self.trace = []       # (key, options, index)
        self.pos = {}

    def ask(self, k, options):
        i = self.pos.get(k)
        if i is None:
            i = self.pos[k] = len(self.trace)
            self.trace.append([k, options, 0])
        return self.trace[i][1][self.trace[i][2]]

    def next(self):
        while self.trace and self.trace[-1][2] + 1 >= len(self.trace[-1][1]):
            k = self.trace.pop()[0]
            del self.pos[k]
        if not self.trace:
            return False
        self.trace[-1][2] += 1
        return True


class Run:
    """one scenario: rel maps member name -> eq/lt/gt (default eq)"""

    def __init__(self, P, reads, rel, oracle, forced=None, default="eq", free=False):
        self.P, self.reads, self.rel, self.O = P, reads, rel, oracle
        self.forced = forced          # relation of derived quantities, None: enumerate
        self.default = default
        self.used = set()             # members looked at
        self.asym = []                # comparisons of different things
        self.depth = 0
        self.swapped = False
        self.klass = None
        self.opaque = False
        self.preds = set()            # members one side's properties were asked about

    # -------------------------------------------------------------- fields
    def fields(self, t):
        if not isinstance(t, tuple):
            return frozenset()
        if t[0] == "f" and t[2][0] == "o":
            return frozenset([t[1]])
        if t[0] == "o":
            return frozenset(["<base>"])
        if t[0] == "c" and t[1] == "type_id":
            return frozenset(["<type>"])
        if t[0] == "c" and len(t) > 3 and t[3] is not None:
            s = frozenset(t[3])
            for x in t[4:]:
                if isinstance(x, tuple) and x[0] != "o":
                    s |= self.fields(x)
            return s
        s = frozenset()
        for x in t[1:]:
            if isinstance(x, tuple):
                s |= self.fields(x)
        return s

    def frel(self, n):
        return self.rel.get(n, self.default)

    def exact(self, t):
        """the member this term stands for in full, if any"""
        if t[0] == "f" and t[2][0] == "o":
            return t[1]
        if t[0] == "o":
            return "<base>"
        if t[0] == "*":
            return self.exact(t[1])
        if t[0] == "c" and t[1] not in LOSSY and not t[2]:
            fs = self.fields(t)
            if len(fs) == 1:
                return next(iter(fs))
        return None

    def relof(self, t):
        """relation side1 ? side2 of the quantity t (given for either side)"""
        k = key(t)
        fs = self.fields(t)
        self.used |= fs
        e = self.exact(t)
        if e is not None:
            return self.frel(e)
        if all(self.frel(f) == "eq" for f in fs):
            return "eq"
        if self.forced is not None:
            return self.forced
        r = self.O.ask(("rel", k), ("eq", "lt", "gt"))
        return INV[r] if self.swapped else r

    def pred(self, what, t):
        """a property of one side"""
        (s,) = sides(t)
        fs = self.fields(t)
        self.used |= fs
        self.preds |= fs
        k = ("p", what, key(t))
        if all(self.frel(f) == "eq" for f in fs):
            return self.O.ask(k, (True, False))
        real = s if not self.swapped else 3 - s
        return self.O.ask(k + (real,), (True, False))

    # ------------------------------------------------------------ compare
    def compare(self, a, b):
        """relation a ? b"""
        sa, sb = sides(a), sides(b)
        if len(sa) == 1 and len(sb) == 1 and sa != sb:
            if key(a) == key(b):
                r = self.relof(a)
                return r if sa == {1} else INV[r]
            self.asym.append((a, b))
            self.used |= self.fields(a) | self.fields(b)
            self.opaque = True
            return self.O.ask(("asym", key(a), key(b), tuple(sa), self.swapped), ("eq", "lt", "gt"))
        if sa == sb and len(sa) == 1 and a == b:
            return "eq"
        return None

    def cmpop(self, op, a, b):
        if isinstance(a, str) and isinstance(b, str):
            # relation value against strong_ordering constant
            return {"==": a == b, "!=": a != b}[op]
        if isinstance(a, str) and (b == 0 or isinstance(b, tuple) and b == ("k", "0")):
            return self.relop(op, a)
        if isinstance(a, bool) and isinstance(b, bool):
            return {"==": a == b, "!=": a != b, "<": a < b, ">": a > b,
                    "<=": a <= b, ">=": a >= b}[op]
        if isinstance(a, tuple) and isinstance(b, tuple):
            r = self.compare(a, b)
            if r is not None:
                return self.relop(op, r)
        t = ("cmp", op, a if isinstance(a, tuple) else ("k", str(a)),
             b if isinstance(b, tuple) else ("k", str(b)))
        neg = False
        if op == "!=":
            t = ("cmp", "==") + t[2:]
            neg = True
        s = sides(t)
        if len(s) == 1:
            return self.pred("cmp", t) != neg
        if not s:
            return self.O.ask(("k", t), (True, False)) != neg
        self.used |= self.fields(t)
        self.opaque = True
        return self.O.ask(("op", t, self.swapped), (True, False)) != neg

    @staticmethod
    def relop(op, r):
        return {"==": r == "eq", "!=": r != "eq", "<": r == "lt", ">": r == "gt",
                "<=": r != "gt", ">=": r != "lt"}[op]

    # --------------------------------------------------------------- exec
    def call(self, f, this, args):
        self.depth += 1
        if self.depth > 8:
            self.depth -= 1
            raise Unsup("depth")
        try:
            env = {"this": this}
            for p, v in zip(f.p, args):
                env[p["d"]] = v
            return self.body(f, env)
        finally:
            self.depth -= 1

    def body(self, f, env):
        try:
            self.stmt(f, f.b, env)
        except Ret as r:
            return r.v
        return None

    def stmt(self, f, x, env):
        if x is None or x < 0:
            return
        nd = f.N[x]
        k = nd["k"]
        if nd.get("as"):
            return
        if k == "block":
            for c in nd["c"]:
                self.stmt(f, c, env)
        elif k == "ret":
            raise Ret(self.ev(f, nd["c"][0], env) if nd.get("c") else None)
        elif k == "if":
            c = [z for z in nd["c"]]
            if nd.get("in") is not None and isinstance(nd.get("in"), int) and nd["in"] >= 0:
                self.stmt(f, nd["in"], env)
            v = self.boolean(f, c[0], env)
            if v:
                self.stmt(f, c[1], env)
            elif len(c) > 2:
                self.stmt(f, c[2], env)
        elif k == "decl":
            for c in nd.get("c", ()):
                self.stmt(f, c, env)
        elif k == "var":
            if nd.get("b"):
                raise Unsup("bindings")
            if nd.get("c"):
                env[nd["d"]] = self.ev(f, nd["c"][0], env)
        elif k == "nop":
            pass
        elif k in ("for", "while", "do", "rfor", "switch", "try", "throw"):
            raise Unsup(k)
        elif k == "asg" and nd["o"] == "=":
            l = memo.unwrap(f, nd["c"][0])
            if f.N[l]["k"] == "ref" and f.N[l]["d"] in env:
                env[f.N[l]["d"]] = self.ev(f, nd["c"][1], env)
            else:
                raise Unsup("assignment")
        elif k in ("call", "cast", "x", "cond", "bin", "ctor", "un"):
            self.ev(f, x, env)
        else:
            raise Unsup(k)

    def boolean(self, f, x, env):
        v = self.ev(f, x, env)
        if isinstance(v, bool):
            return v
        if isinstance(v, tuple):
            s = sides(v)
            if len(s) == 1:
                return self.pred("true", v)
            self.used |= self.fields(v)
            self.opaque = True
            return self.O.ask(("op", v, self.swapped if s else None), (True, False))
        if isinstance(v, int):
            return bool(v)
        raise Unsup("boolean")

    def ev(self, f, x, env):
        if x is None or x < 0:
            raise Unsup("missing")
        nd = f.N[x]
        k = nd["k"]
        c = nd.get("c", ())
        if k in ("cast", "x") and len(c) == 1:
            return self.ev(f, c[0], env)
        if k == "this":
            return env["this"]
        if k == "ref":
            d = nd["d"]
            if d in env:
                return env[d]
            if d is not None and d.q and d.q.startswith("std::") and d.n in (
                    "less", "greater", "equal", "equivalent") and "ordering" in d.q:
                return {"less": "lt", "greater": "gt"}.get(d.n, "eq")
            return ("k", d.q or d.n if d is not None else "?")
        if k == "int":
            return ("k", str(nd["v"]))
        if k == "bool":
            return bool(nd["v"])
        if k in ("str", "chr", "flt", "null"):
            return ("k", k + str(nd.get("v", "")))
        if k == "defarg":
            return ("k", "default")
        if k == "mem":
            d = nd["d"]
            b = self.ev(f, c[0], env)
            if not isinstance(b, tuple):
                raise Unsup("member")
            if d.k == "field":
                return ("f", d.n, self.plain(b))
            return ("k", d.q or d.n)
        if k == "un":
            if nd["o"] == "!":
                return not self.boolean(f, c[0], env)
            v = self.ev(f, c[0], env)
            if nd["o"] in ("*", "&"):
                return v
            if isinstance(v, tuple):
                return ("c", "un" + nd["o"], True, None, v)
            raise Unsup("un")
        if k == "cond":
            return self.ev(f, c[1] if self.boolean(f, c[0], env) else c[2], env)
        if k in ("bin", "rew") or (k == "call" and nd.get("o") in CMP | {"<=>"}):
            return self.binary(f, x, nd, env)
        if k == "lambda":
            return ("lam", f, x, env)
        if k == "ctor":
            if len(c) == 1:
                v = self.ev(f, c[0], env)
                return v
            vals = [self.ev(f, z, env) for z in c]
            return ("c", nd["d"].q, True, None) + tuple(
                v if isinstance(v, tuple) else ("k", str(v)) for v in vals)
        if k == "ilist":
            vals = [self.ev(f, z, env) for z in c]
            return ("c", "{}", True, None) + tuple(
                v if isinstance(v, tuple) else ("k", str(v)) for v in vals)
        if k == "idx":
            v = [self.ev(f, z, env) for z in c]
            return ("c", "[]", True, None) + tuple(
                z if isinstance(z, tuple) else ("k", str(z)) for z in v)
        if k == "call":
            return self.callnode(f, x, nd, env)
        raise Unsup(k)

    @staticmethod
    def plain(t):
        while t[0] == "*":
            t = t[1]
        return t

    def binary(self, f, x, nd, env):
        o = nd.get("o")
        c = [z for z in nd["c"]]
        if o in ("&&", "||"):
            l = self.boolean(f, c[0], env)
            if o == "&&":
                return l and self.boolean(f, c[1], env)
            return l or self.boolean(f, c[1], env)
        a = self.ev(f, c[0], env)
        b = self.ev(f, c[1], env)
        whole = isinstance(a, tuple) and isinstance(b, tuple) and \
            a[0] == "o" and b[0] == "o"
        if whole and nd["k"] == "bin" and o in ("==", "!="):
            # addresses
            if a == b:
                return o == "=="
            same = False if any(v != "eq" for v in self.rel.values()) or \
                self.default != "eq" else self.O.ask(("same",), (True, False))
            return same == (o == "==")
        if whole and nd.get("d") is not None and nd["k"] in ("call", "rew"):
            tg = [g for g in self.P.targets(f, nd) if g.b is not None and g.u == nd["d"].u]
            if tg and not (tg[0].imp or tg[0].dflt):
                g = tg[0]
                this, args = (a, [b]) if g.c and not g.st and len(g.p) == 1 else (None, [a, b])
                r = self.call(g, this, args)
                if nd["k"] == "rew":
                    if isinstance(r, str):
                        return self.relop(o, r)
                    if o == "!=":
                        return not r
                return r
        if o == "<=>":
            r = self.compare(a, b) if isinstance(a, tuple) and isinstance(b, tuple) else None
            if r is None:
                raise Unsup("<=>")
            return r
        if o in CMP:
            return self.cmpop(o, a, b)
        t = ("c", "bin" + str(o), True, None,
             a if isinstance(a, tuple) else ("k", str(a)),
             b if isinstance(b, tuple) else ("k", str(b)))
        return t

    def callnode(self, f, x, nd, env):
        d = nd.get("d")
        c = list(nd.get("c", ()))
        if d is None:
            # call of a local callable
            if "ce" in nd and nd["ce"] >= 0:
                v = self.ev(f, nd["ce"], env)
                if isinstance(v, tuple) and v[0] == "lam":
                    return self.lam(v, [self.ev(f, z, env) for z in c])
            raise Unsup("call")
        vals = [self.ev(f, z, env) for z in c]
        if d.n == "operator()" and vals and isinstance(vals[0], tuple) and vals[0][0] == "lam":
            return self.lam(vals[0], vals[1:])
        if d.n in ("operator*", "operator->", "addressof", "as_const", "move", "forward",
                   "as", "ref", "cref") and len(vals) == 1:
            return vals[0]
        if d.n in ("get", "value") and len(vals) == 1 and not self.P.targets(f, nd):
            return vals[0]
        if d.n.startswith("operator ") and len(vals) == 1:
            return vals[0]
        tv = [v if isinstance(v, tuple) and v[0] != "lam" else ("k", repr(v) if not isinstance(v, tuple) else "lambda")
              for v in vals]
        s = frozenset()
        for v in tv:
            s |= sides(v)
        if d.n in EQALG | LEXALG and len(s) == 2 and not (d.repo if hasattr(d, "repo") else False):
            l1 = [v for v in tv if sides(v) == {1}]
            l2 = [v for v in tv if sides(v) == {2}]
            f1 = frozenset().union(*[self.fields(v) for v in l1])
            f2 = frozenset().union(*[self.fields(v) for v in l2])
            self.used |= f1 | f2
            if f1 != f2 or not l1 or not l2:
                self.asym.append((("c", d.n, True, None) + tuple(l1),
                                  ("c", d.n, True, None) + tuple(l2)))
                self.opaque = True
                return self.O.ask(("asym", d.n, tuple(tv), self.swapped), (True, False))
            first = sides(tv[0]) == {1}
            if len(f1) == 1:
                r = self.frel(next(iter(f1)))
            elif all(self.frel(z) == "eq" for z in f1):
                r = "eq"
            elif self.forced is not None:
                r = self.forced
            else:
                r = self.O.ask(("alg", tuple(sorted(f1))), ("eq", "lt", "gt"))
                if self.swapped:
                    r = INV[r]
            if not first:
                r = INV[r]
            return r == ("eq" if d.n in EQALG else "lt")
        tg = [g for g in self.P.targets(f, nd) if g.b is not None]
        if len(tg) > 1 and tv and tv[0][0] == "o" and self.klass:
            tg = self.resolve(tg)
        g = tg[0] if len(tg) >= 1 else None
        if len(tg) > 1:
            g = next((h for h in tg if h.u == d.u), None) if nd.get("nv") else None
        ismeth = g is not None and g.c and not g.st
        if g is not None and len(s) == 2 and not g.imp:
            this, args = (vals[0], vals[1:]) if ismeth else (None, vals)
            return self.call(g, this, args)
        if g is not None and len(s) == 1 and self.accessor(g):
            this, args = (vals[0], vals[1:]) if ismeth else (None, vals)
            try:
                v = self.call(g, this, args)
                if isinstance(v, bool) or (isinstance(v, tuple) and v[0] != "lam" and
                                           sides(v) == s):
                    return v
            except Unsup:
                pass
        if len(s) == 2:
            for v in tv:
                self.used |= self.fields(v)
            if nd.get("t") is not None and nd["t"].boolean:
                self.opaque = True
                return self.O.ask(("op", d.n, tuple(tv), self.swapped), (True, False))
            raise Unsup("two-sided call of " + d.n)
        # a quantity derived from one side
        fs = None
        if tv and tv[0][0] == "o":
            fs = self.objreads(f, nd, tg)
        lossy = d.n in LOSSY or (nd.get("t") is not None and nd["t"].boolean) or "hash" in d.n
        return ("c", d.n, bool(lossy), fs) + tuple(tv)

    def resolve(self, tg):
        """the sides are objects of the class under analysis"""
        k, todo, seen = None, [self.klass], set()
        while todo:
            k = todo.pop(0)
            if k in seen:
                continue
            seen.add(k)
            for g in tg:
                if g.c and memo.strip(g.c) == memo.strip(k):
                    return [g]
            todo += sorted(self.P.bases.get(k, ()))
        return tg

    def objreads(self, f, nd, tg):
        out = set()
        for g in tg:
            r = self.reads(g)
            out |= r
        if not tg:
            out.add("<base>")
        return frozenset(out)

    def accessor(self, g):
        n = 0
        for x in g.N[g.b].get("c", ()):
            if x >= 0 and g.N[x]["k"] not in ("ret", "decl", "nop") and not g.N[x].get("as"):
                return False
        for x in g.subtree(g.b):
            k = g.N[x]["k"]
            if g.N[x].get("as"):
                continue
            if k in ("if", "for", "while", "do", "rfor", "switch", "try", "cond", "asg"):
                return False
            if k == "ret":
                n += 1
        return n == 1

    def lam(self, v, args):
        _, f, x, env = v
        fs = self.P.lambdas_of(f.N[x])
        if not fs:
            raise Unsup("lambda")
        g = next((h for h in fs if len(h.p) == len(args)), None)
        if g is None:
            raise Unsup("lambda arity")
        e = dict(env)
        for p, a in zip(g.p, args):
            e[p["d"]] = a
        return self.body(g, e)


def outcomes(P, reads, f, rel, swap=False, forced=None, default="eq", limit=20000, mk=None):
    """all (result, members predicates asked about, opaque) of f(1,2) over the open
    decisions, members used, comparisons of unlike things"""
    O = Oracle()
    res, used, asym = set(), set(), []
    n = 0
    while True:
        R = Run(P, reads, rel, O, forced, default)
        R.klass = f.c
        v = start(R, f)
        res.add((v, frozenset(R.preds), R.opaque))
        used |= R.used
        asym += R.asym
        n += 1
        if n > limit:
            raise Unsup("too many cases")
        if not O.next():
            return res, used, asym


def start(R, f, a=("o", 1), b=("o", 2)):
    if f.c and not f.st and len(f.p) == 1:
        return R.call(f, a, [b])
    if len(f.p) == 2:
        return R.call(f, ("k", "functor"), [a, b])
    raise Unsup("signature")


def both(P, reads, f, rel, default="eq", limit=20000):
    """pairs (f(1,2), f(2,1)) over the open decisions (the same ones for both)"""
    O = Oracle()
    out = set()
    used = set()
    n = 0
    inv = {k: INV[v] for k, v in rel.items()}
    while True:
        R = Run(P, reads, rel, O, None, default)
        R.klass = f.c
        x = start(R, f)
        S = Run(P, reads, inv, O, None, INV[default])
        S.swapped = True
        S.klass = f.c
        y = start(S, f)
        used |= R.used | S.used
        out.add((x, y))
        n += 1
        if n > limit:
            raise Unsup("too many cases")
        if not O.next():
            return out, used
