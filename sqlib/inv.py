"""Abstract execution over transformations of an object's parts.

A function that rebuilds an object in place is run with every member of the
object replaced by its name.  A value is the set of (member, operations) pairs it
may be built from, where operations is the set of involutions - conjugation,
negation, reversal, element-wise adjoint, toggled mark - applied an odd number of
times.  All branches are joined; a loop over a container is one step that stands
for all its elements.  Decisions on an enumerated member can be fixed by
assumption.
"""
from . import memo

NOTHING = frozenset()
# functions whose result is (part of) what they are given, as it is
PASS = set("move forward as_const get begin end cbegin cend begin_subexpr next prev advance distance size ssize empty "
           "make_shared make_unique make_pair make_tuple pair tuple tie copy copy_n copy_if take drop filter at front back "
           "data to to_vector subrange counted find find_if min max forward_as_tuple enable_shared_from_this "
           "static_pointer_cast dynamic_pointer_cast const_pointer_cast make_optional optional function ref cref "
           "any_of all_of none_of equal count count_if max_element min_element sort stable_sort unique "
           "make_move_iterator move_backward to_wstring to_string".split())
MAXD = 14


class Unsup(Exception):
    pass


def tog(val, op):
    return frozenset((s, o ^ {op}) for s, o in val)


def S_with(val, mark):
    return frozenset((s, o | {mark}) for s, o in val)


def atom(src):
    return frozenset([(src, NOTHING)])


class St:
    """store: {(obj, field): value}; env: decl id -> binding; None when dead"""
    __slots__ = ("m", "env", "dead", "tv", "facts")

    def __init__(self, m=None, env=None):
        self.m = {} if m is None else m
        self.env = {} if env is None else env
        self.tv = {}          # local boolean -> known truth
        self.facts = {}       # (member, operations) of a flag -> known truth on this branch
        self.dead = False

    def copy(self):
        s = St(dict(self.m), dict(self.env))
        s.tv, s.facts = dict(self.tv), dict(self.facts)
        s.dead = self.dead
        return s

    def take(self, o):
        self.m, self.env, self.dead = o.m, o.env, o.dead
        self.tv, self.facts = o.tv, o.facts


def join(a, b, init):
    if a.dead:
        return b
    if b.dead:
        return a
    r = St()
    r.tv = {k: v for k, v in a.tv.items() if b.tv.get(k) is v}
    r.facts = {k: v for k, v in a.facts.items() if b.facts.get(k) is v}
    for k in set(a.m) | set(b.m):
        x = a.m[k] if k in a.m else init(k)
        y = b.m[k] if k in b.m else init(k)
        r.m[k] = x | y
    for k in set(a.env) | set(b.env):
        x, y = a.env.get(k), b.env.get(k)
        if x is None or y is None or x == y:
            r.env[k] = x if x is not None else y
        elif x[0] == "val" and y[0] == "val":
            r.env[k] = ("val", x[1] | y[1])
        else:
            r.env[k] = x
    return r


class Frame:
    def __init__(self, f, this):
        self.f, self.this = f, this
        self.rets = []        # (St, result)
        self.brk = []
        self.conts = []
        self.desc = set()     # loop variables that count down


class Inv:
    """P: program; family: class q (stripped) -> has modelled fields;
    assume: {member name: enumerator name}"""

    def __init__(self, P, family, assume=None):
        self.P, self.family = P, family
        self.assume = assume or {}
        self.objs = {}        # id -> class
        self.sym = set()      # objects whose members start as themselves
        self.stack = []
        self.nobj = 0
        self.tags = {}
        self.cl = {}
        for c in P.clss:
            ty = c.ty.s if c.ty is not None else c.q
            for k in (ty, memo.strip(ty), c.q):
                o = self.cl.get(k)
                if o is None or (o.dep and not c.dep) or \
                        (o.dep == c.dep and k != ty and len(c.fields) > len(o.fields)):
                    self.cl[k] = c
        self.steps = 0
        self.fcache = {}

    # --------------------------------------------------------------- store
    def newobj(self, q, sym=None):
        self.nobj += 1
        self.objs[self.nobj] = q
        if sym is not None:
            self.sym.add(self.nobj)
            self.tags[self.nobj] = sym
        return self.nobj

    def init(self, loc):
        o, f = loc
        if o in self.sym:
            t = self.tags[o]
            return atom(t + f if f else t)
        return NOTHING

    def get(self, st, loc):
        v = st.m.get(loc)
        return self.init(loc) if v is None else v

    def fields(self, q):
        """members of a class and its bases; '<base>' when it is a container"""
        if q not in self.fcache:
            self.fcache[q] = self._fields(q)
        return self.fcache[q]

    def _fields(self, q):
        out = []
        c = self.cl.get(q)
        if c is None:
            return out
        out += [fd["n"] for fd in c.fields if fd["n"]]
        for b, t in c.bases:
            r = t.r if t is not None and t.r else b
            r = t.s if t is not None and t.s in self.cl else r
            if r in self.cl and r.startswith("sequant"):
                out += self.fields(r)
            elif "vector" in (r or "") or "vector" in (t.s if t is not None else ""):
                out.append("<base>")
        return out

    def whole(self, st, v):
        """the value of everything in v"""
        k, x = v
        if k == "val":
            return x
        if k == "loc":
            return self.get(st, x)
        if k == "obj":
            r = NOTHING
            for fd in self.fields(self.objs[x]) or [None]:
                r |= self.get(st, (x, fd))
            return r
        if k == "lam":
            return self.lamval(st, x)
        return NOTHING

    def lamval(self, st, lam):
        """what calling a stored function object yields"""
        g, this, cap = lam
        if g is None or g.u in self.stack or len(self.stack) >= MAXD - 1:
            return NOTHING
        fr = Frame(g, this)
        s2 = st.copy()
        s2.env = dict(cap)
        ps = []
        for p in g.p:
            o = self.newobj(None)
            s2.env[p["d"]] = ("loc", (o, ""))
            ps.append((o, ""))
        out, v = self.body(fr, s2)
        if out.dead:
            return NOTHING
        r = self.wholes(out, [v])
        for p in ps:
            r |= self.get(out, p)
        return r

    # ---------------------------------------------------------------- run
    def run(self, f, args=None, cls=None):
        """returns (final St, value returned, this object id or None)"""
        this = None
        if f.c is not None and not f.st:
            this = self.newobj(cls or f.c, "")
        st = St()
        fr = Frame(f, this)
        for i, p in enumerate(f.p):
            a = args[i] if args and i < len(args) else None
            if a is None:
                o = self.newobj(self.cls(p["t"]), "p%d." % i if self.modelled(p["t"]) else "p%d" % i)
                if self.modelled(p["t"]):
                    a = ("obj", o)
                else:
                    a = ("loc", (o, ""))
            st.env[p["d"]] = a
        self.stack = []
        out, val = self.body(fr, st)
        return out, val, this

    def cls(self, t):
        return t.s if t is not None and t.s in self.cl else (t.r if t is not None else None)

    def modelled(self, t):
        if t is None:
            return False
        return memo.strip(t.r or "") in self.family

    def body(self, fr, st):
        f = fr.f
        self.stack.append(f.u)
        if len(self.stack) > MAXD:
            self.stack.pop()
            raise Unsup("depth")
        try:
            if f.b is not None and f.b >= 0:
                self.stmt(fr, st, f.b)
        finally:
            self.stack.pop()
        if not st.dead:
            fr.rets.append((st, ("val", NOTHING)))
        if not fr.rets:
            d = St()
            d.dead = True
            return d, ("val", NOTHING)
        out, val = fr.rets[0]
        for s, v in fr.rets[1:]:
            if v != val:
                val = ("val", self.whole(out, val) | self.whole(s, v))
            out = join(out, s, self.init)
        return out, val

    # ---------------------------------------------------------- statements
    def stmt(self, fr, st, n):
        if n is None or n < 0 or st.dead:
            return
        self.steps += 1
        if self.steps > 60000:
            raise Unsup("too long")
        nd = fr.f.N[n]
        k = nd["k"]
        c = nd.get("c", ())
        if nd.get("as"):
            return
        if k in ("block", "decl", "try"):
            for x in c:
                self.stmt(fr, st, x)
        elif k == "catch":
            return
        elif k == "var":
            self.var(fr, st, n)
        elif k == "ret":
            v = self.ev(fr, st, c[0]) if c and c[0] is not None and c[0] >= 0 else ("val", NOTHING)
            if not st.dead:
                t = fr.f.t
                if v[0] == "loc" and not (t is not None and (t.ref or t.ptr or self.viewy(t))):
                    v = ("val", self.get(st, v[1]))
                s2 = st.copy()
                fr.rets.append((s2, v))
                st.dead = True
        elif k == "if":
            self.iff(fr, st, c)
        elif k == "switch":
            self.switch(fr, st, n)
        elif k in ("for", "while", "do", "rfor"):
            self.loop(fr, st, n)
        elif k == "break":
            fr.brk.append(st.copy())
            st.dead = True
        elif k == "continue":
            fr.conts.append(st.copy())
            st.dead = True
        elif k in ("case", "default"):
            for x in c:
                self.stmt(fr, st, x)
        elif k == "throw":
            st.dead = True
        elif k == "nop":
            pass
        else:
            self.ev(fr, st, n)

    def viewy(self, t):
        from . import effects
        return t.r is not None and bool(effects.POINTERISH.search(t.s)) and not t.r.startswith("sequant")

    def iff(self, fr, st, c):
        c = [x for x in c]
        while len(c) > 3:
            self.stmt(fr, st, c.pop(0))
        # [init/var..., cond, then, else]
        cond, then = c[0], c[1]
        els = c[2] if len(c) > 2 else None
        b = self.truth(fr, st, cond)
        self.ev(fr, st, cond)
        a = st.copy()
        e = st.copy()
        self.emptied(fr, a, cond, True)
        self.emptied(fr, e, cond, False)
        self.learn(fr, a, cond, True)
        self.learn(fr, e, cond, False)
        a0, e0 = a.copy(), e.copy()
        if b is not False:
            self.stmt(fr, a, then)
        else:
            a.dead = True
        if b is not True:
            if els is not None and els >= 0:
                self.stmt(fr, e, els)
        else:
            e.dead = True
        lost = []
        if not a.dead and not e.dead:
            for x, x0, y, y0 in ((a, a0, e, e0), (e, e0, a, a0)):
                for k in x.m:
                    if k[0] in self.sym and not x.m[k] and self.get(x0, k) and self.get(y, k) == self.get(y0, k) == self.get(x0, k):
                        if not {s for s, o in self.get(y, k)} & self.asked(fr, a0, cond):
                            lost.append(k)
        st.take(join(a, e, self.init))
        for k in lost:
            st.m[k] = st.m[k] | atom("lost")

    def learn(self, fr, st, n, pos):
        """the truth of a flag on this branch"""
        f = fr.f
        n = memo.unwrap(f, n)
        if n is None or n < 0:
            return
        m = f.N[n]
        if m["k"] == "un" and m.get("o") == "!":
            return self.learn(fr, st, m["c"][0], not pos)
        if m["k"] == "bin" and m.get("o") == ("&&" if pos else "||"):
            for x in m["c"]:
                self.learn(fr, st, x, pos)
            return
        if m["k"] == "bin" and m.get("o") in ("==", "!="):
            for x, y in (m["c"], m["c"][::-1]):
                z = f.N[memo.unwrap(f, y)]
                if z["k"] == "bool":
                    return self.learn(fr, st, x, pos == (bool(z["v"]) == (m["o"] == "==")))
            return
        t = m.get("t")
        if m["k"] not in ("ref", "mem", "call") or t is None or not t.boolean:
            return
        if m["k"] == "ref" and m["d"] is not None:
            st.tv[m["d"]] = pos
        v = self.whole(st, self.ev(fr, st.copy(), n))
        if len(v) == 1:
            (a, o), = v
            if o <= {"not"}:
                st.facts[a] = pos != ("not" in o)

    def blank(self, f, n):
        """an empty or default value"""
        n = memo.unwrap(f, n)
        nd = f.N[n]
        if nd["k"] in ("zero", "null"):
            return True
        if nd["k"] in ("ctor", "ilist"):
            return all(self.blank(f, x) or f.N[x]["k"] == "defarg" for x in nd.get("c", ()) if x is not None and x >= 0)
        return nd["k"] == "ref" and nd.get("d") is not None and nd["d"].n == "nullopt"

    def asked(self, fr, st, n):
        """the parts a condition looks at"""
        r = set()
        for y in fr.f.subtree(n):
            if fr.f.N[y]["k"] in ("ref", "mem", "call"):
                try:
                    r |= {s for s, o in self.whole(st.copy(), self.ev(fr, st.copy(), y))}
                except (Unsup, KeyError, IndexError, TypeError):
                    pass
        return r

    def literal(self, st, v):
        """true or false, in terms of the flags known here"""
        return frozenset((a, NOTHING if t is v else frozenset(["not"])) for a, t in st.facts.items())

    def emptied(self, fr, st, n, pos):
        """a container known to be empty on this branch holds nothing"""
        f = fr.f
        n = memo.unwrap(f, n)
        if n is None or n < 0:
            return
        m = f.N[n]
        if m["k"] == "un" and m.get("o") == "!":
            return self.emptied(fr, st, m["c"][0], not pos)
        if m["k"] == "bin" and m.get("o") == ("||" if not pos else "&&"):
            for x in m["c"]:
                self.emptied(fr, st, x, pos)
            return
        tgt = None
        if m["k"] == "call" and m["d"] is not None and m["d"].n == "empty" and pos:
            tgt = m["c"][0] if m.get("c") else None
        elif m["k"] == "bin" and m.get("o") in ("==", "!=") and pos == (m["o"] == "=="):
            for x, y in (m["c"], m["c"][::-1]):
                x, y = memo.unwrap(f, x), memo.unwrap(f, y)
                if f.N[x]["k"] == "int" and str(f.N[x].get("v")) == "0" and f.N[y]["k"] == "call" and \
                        f.N[y]["d"] is not None and f.N[y]["d"].n in ("size", "ssize"):
                    tgt = f.N[y]["c"][0] if f.N[y].get("c") else None
                elif f.N[x]["k"] in ("int", "flt", "zero", "ctor") and f.N[y]["k"] == "call" and \
                        f.N[y]["d"] is not None and f.N[y]["d"].n == "imag" and self.zero(f, x):
                    tgt = f.N[y]["c"][0] if f.N[y].get("c") else None
        elif m["k"] in ("rew", "call") and m.get("o") in ("==", "!=") and pos == (m["o"] == "=="):
            z = self.imagzero(f, n)
            if z is not None:
                tgt = z
        if tgt is None or tgt < 0:
            return
        v = self.clean(self.ev(fr, st.copy(), tgt))
        if v[0] == "obj" and "<base>" in self.fields(self.objs[v[1]]):
            v = ("loc", (v[1], "<base>"))
        elif v[0] == "obj":
            for fd in self.fields(self.objs[v[1]]):
                if fd.rstrip("_") in ("factors", "summands"):
                    st.m[(v[1], fd)] = NOTHING
        if v[0] == "loc":
            t = f.N[memo.unwrap(f, tgt)].get("t")
            if not self.stringy(t):
                st.m[v[1]] = NOTHING

    def zero(self, f, n):
        lits = [f.N[y] for y in f.subtree(n) if f.N[y]["k"] in ("int", "flt")]
        return all(float(str(z.get("v", "1")).rstrip("uUlLfF") or 1) == 0 for z in lits) and \
            not any(f.N[y]["k"] in ("ref", "mem", "this") for y in f.subtree(n))

    def imagzero(self, f, n):
        """x of `x.imag() == 0` written with an overloaded operator"""
        tgt = None
        for y in f.subtree(n):
            z = f.N[y]
            if z["k"] == "call" and z["d"] is not None and z["d"].n == "imag" and z.get("c"):
                tgt = z["c"][0]
            elif z["k"] in ("int", "flt") and not self.zero(f, y):
                return None
            elif z["k"] == "call" and z["d"] is not None and z["d"].n not in ("imag",) and z.get("o") not in ("==", "!="):
                if z["d"].n not in ("value",):
                    return None
        return tgt

    def switch(self, fr, st, n):
        nd = fr.f.N[n]
        c = [x for x in nd["c"] if x is not None and x >= 0]
        cond, body = c[-2], c[-1]
        want = self.enumval(fr, st, cond)
        self.ev(fr, st, cond)
        items = []

        def flat(x):
            m = fr.f.N[x]
            if m["k"] in ("case", "default"):
                items.append(("lab", x))
                for y in m["c"]:
                    if m["k"] == "case" and y == m["c"][0]:
                        continue
                    flat(y)
            elif m["k"] == "block" and x == body:
                for y in m["c"]:
                    flat(y)
            else:
                items.append(("st", x))
        flat(body)
        labs = [i for i, (kk, x) in enumerate(items) if kk == "lab"]
        hasdef = False
        out = None
        save = fr.brk
        starts = []
        for i in labs:
            m = fr.f.N[items[i][1]]
            if m["k"] == "default":
                hasdef = True
                starts.append((i, None))
            else:
                starts.append((i, self.enumconst(fr, m["c"][0])))
        if want is not None and any(v == want for _, v in starts):
            starts = [s for s in starts if s[1] == want]
            hasdef = True
        elif want is not None:
            starts = [s for s in starts if s[1] is None]
        res = []
        for i, _ in starts:
            s = st.copy()
            fr.brk = []
            for kk, x in items[i:]:
                if kk == "st":
                    self.stmt(fr, s, x)
            res += [s] + fr.brk
        fr.brk = save
        if not hasdef:
            res.append(st.copy())
        for s in res:
            out = s if out is None else join(out, s, self.init)
        if out is not None:
            st.take(out)

    def loop(self, fr, st, n):
        nd = fr.f.N[n]
        k = nd["k"]
        c = nd["c"]
        sb, sc = fr.brk, fr.conts
        fr.brk, fr.conts = [], []
        if k != "rfor":
            self.falling(fr, n)
        if k == "rfor":
            lv, rng, body = c[-3], c[-2], c[-1]
            for x in c[:-3]:
                self.stmt(fr, st, x)
            r = self.clean(self.ev(fr, st, rng))
            if r[0] == "obj" and "<base>" in self.fields(self.objs[r[1]]):
                r = ("loc", (r[1], "<base>"))
            var = self.varnode(fr, lv)
            if var is not None:
                m = fr.f.N[var]
                self.bind(fr, st, m, r, elem=True)
            self.stmt(fr, st, body)
        elif k == "for":
            init, cond, inc, body = (list(c) + [None] * 4)[:4] if len(c) <= 4 else \
                (c[0], c[-3], c[-2], c[-1])
            self.stmt(fr, st, init)
            if cond is not None and cond >= 0:
                self.ev(fr, st, cond)
            self.stmt(fr, st, body)
        elif k == "while":
            self.ev(fr, st, c[-2])
            self.stmt(fr, st, c[-1])
        else:
            self.stmt(fr, st, c[0])
        for s in fr.conts:
            st.take(join(st, s, self.init))
        for s in fr.brk:
            st.take(join(st, s, self.init))
        fr.brk, fr.conts = sb, sc

    def falling(self, fr, n):
        """variables that count down in this loop"""
        for y in fr.f.subtree(n):
            m = fr.f.N[y]
            if (m["k"] == "un" and "--" in m.get("o", "")) or (m["k"] == "call" and m.get("o") in ("--", "-=")) or \
                    (m["k"] == "asg" and m.get("o") == "-="):
                for w in fr.f.subtree(m["c"][0]):
                    if fr.f.N[w]["k"] == "ref" and fr.f.N[w]["d"] is not None:
                        fr.desc.add(fr.f.N[w]["d"])

    def varnode(self, fr, n):
        if n is None or n < 0:
            return None
        for y in fr.f.subtree(n):
            if fr.f.N[y]["k"] == "var":
                return y
        return None

    def var(self, fr, st, n):
        m = fr.f.N[n]
        c = [x for x in m.get("c", ()) if x is not None and x >= 0]
        d = m["d"]
        t = d.t
        if not c:
            st.env[d] = self.fresh(t)
            if st.env[d][0] == "val":
                o = self.newobj(None)
                st.env[d] = ("loc", (o, ""))
                st.m[(o, "")] = NOTHING
            return
        v = self.ev(fr, st, c[0])
        self.bind(fr, st, m, v)
        for b in m.get("b", ()) or ():
            if isinstance(b, int):
                b = fr.f.N[b]["d"] if b < len(fr.f.N) else None
            if hasattr(b, "u"):
                st.env[b] = st.env[d]

    def fresh(self, t):
        if self.modelled(t):
            return ("obj", self.newobj(self.cls(t)))
        return ("val", NOTHING)

    def smart(self, t):
        return t is not None and (t.ptr or t.r in ("sequant::ExprPtr", "std::shared_ptr"))

    def bind(self, fr, st, m, v, elem=False):
        d = m["d"]
        t = d.t
        c0 = [x for x in m.get("c", ()) if x is not None and x >= 0]
        st.tv.pop(d, None)
        if t is not None and t.boolean and not t.ref and c0 and not elem:
            b = self.truth(fr, st, c0[0])
            if b is not None:
                st.tv[d] = b
        if v[0] in ("lam",):
            st.env[d] = v
            return
        if t is not None and (t.ref or t.ptr or self.viewy(t)) or \
                (v[0] == "loc" and self.smart(t)):
            st.env[d] = v
            return
        st.env[d] = self.copyof(st, v, t)
        if isinstance(m.get("b"), list):
            for b in m["b"]:
                if hasattr(b, "u"):
                    st.env[b] = st.env[d]

    def copyof(self, st, v, t):
        if v[0] == "obj" and (t is None or self.modelled(t)):
            q = self.objs[v[1]]
            o = self.newobj(q)
            for fd in self.fields(q):
                st.m[(o, fd)] = self.get(st, (v[1], fd))
            return ("obj", o)
        if v[0] == "lam":
            return v
        o = self.newobj(None)
        st.m[(o, "")] = self.whole(st, v)
        return ("loc", (o, ""))

    # ---------------------------------------------------------- conditions
    def enumconst(self, fr, n):
        n = memo.unwrap(fr.f, n)
        if n is None or n < 0:
            return None
        m = fr.f.N[n]
        if m["k"] == "ref" and m["d"] is not None and m["d"].k == "enumc":
            return m["d"].n
        if m["k"] == "ref" and m["d"] is not None and m.get("t") is not None and m["t"].enum \
                and m["d"].k not in ("var", "parm", "param"):
            return m["d"].n
        return None

    def enumval(self, fr, st, n):
        """the assumed value of an expression, if it is the unchanged member"""
        e = self.enumconst(fr, n)
        if e is not None:
            return e
        n = memo.unwrap(fr.f, n)
        m = fr.f.N[n]
        if m.get("t") is None or not (m["t"].enum or m["t"].r is None):
            return None
        v = self.whole(st, self.ev(fr, st.copy(), n))
        if len(v) == 1:
            (s, o), = v
            if not o and s in self.assume:
                return self.assume[s]
        return None

    def truth(self, fr, st, n):
        n = memo.unwrap(fr.f, n)
        if n is None or n < 0:
            return None
        m = fr.f.N[n]
        if m["k"] == "bool":
            return bool(m["v"])
        if m["k"] == "ref" and m["d"] is not None and m["d"] in st.tv:
            return st.tv[m["d"]]
        if m["k"] == "un" and m.get("o") == "!":
            b = self.truth(fr, st, m["c"][0])
            return None if b is None else not b
        if m["k"] == "bin" and m.get("o") in ("&&", "||"):
            a, b = (self.truth(fr, st, x) for x in m["c"])
            if m["o"] == "&&":
                return False if False in (a, b) else (True if a and b else None)
            return True if True in (a, b) else (False if a is False and b is False else None)
        if m["k"] == "bin" and m.get("o") in ("==", "!=") and self.assume:
            a, b = (self.enumval(fr, st, x) for x in m["c"])
            if a is not None and b is not None:
                return (a == b) == (m["o"] == "==")
        return None

    # --------------------------------------------------------- expressions
    def val(self, fr, st, n):
        return self.whole(st, self.ev(fr, st, n))

    def ev(self, fr, st, n):
        """('loc', loc) | ('obj', id) | ('val', atoms) | ('lam', ...)"""
        if n is None or n < 0 or st.dead:
            return ("val", NOTHING)
        f = fr.f
        nd = f.N[n]
        k = nd["k"]
        c = nd.get("c", ())
        if nd.get("as") and k not in ("cast", "ref", "mem"):
            return ("val", NOTHING)
        if k in ("cast", "x") and len(c) == 1:
            return self.ev(fr, st, c[0])
        if k == "bool":
            return ("val", self.literal(st, bool(nd["v"])))
        if k == "this":
            return ("obj", fr.this) if fr.this is not None else ("val", NOTHING)
        if k == "ref":
            d = nd["d"]
            if d is None:
                return ("val", NOTHING)
            b = st.env.get(d)
            if b is not None:
                return b
            if d.k in ("func", "method"):
                return ("fn", d)
            if "ranges::views::" in (d.q or ""):
                return ("clos", d.n, ())
            e = self.enumconst(fr, n)
            if e is not None:
                return ("val", atom("=" + e))
            return ("val", NOTHING)
        if k == "mem":
            b = self.ev(fr, st, c[0])
            d = nd["d"]
            if b[0] == "obj" and d is not None and d.k == "field":
                return ("loc", (b[1], d.n))
            if b[0] == "loc":
                return b
            return ("val", self.whole(st, b))
        if k == "un":
            o = nd.get("o", "")
            b = self.ev(fr, st, c[0])
            if o in ("*", "&"):
                return b
            if o == "!":
                return ("val", tog(self.whole(st, b), "not"))
            if o == "-":
                return ("val", tog(self.whole(st, b), "neg"))
            if o == "~":
                return ("val", tog(self.whole(st, b), "not"))
            return b
        if k == "idx":
            b = self.ev(fr, st, c[0])
            self.ev(fr, st, c[1])
            return self.at(fr, st, b, c[1])
        if k == "bin":
            o = nd.get("o")
            a = self.val(fr, st, c[0])
            if o in ("&&", "||"):
                s2 = st.copy()
                b = self.val(fr, s2, c[1])
                st.take(join(st, s2, self.init))
                return ("val", a | b)
            b = self.val(fr, st, c[1])
            return ("val", self.arith(fr, nd, a, b, c))
        if k == "asg":
            o = nd.get("o")
            r = self.ev(fr, st, c[1])
            l = self.ev(fr, st, c[0])
            return self.assign(fr, st, o, l, r, c)
        if k == "cond":
            b = self.truth(fr, st, c[0])
            self.ev(fr, st, c[0])
            if b is True:
                return self.ev(fr, st, c[1])
            if b is False:
                return self.ev(fr, st, c[2])
            s1, s2 = st.copy(), st.copy()
            self.learn(fr, s1, c[0], True)
            self.learn(fr, s2, c[0], False)
            self.emptied(fr, s1, c[0], True)
            self.emptied(fr, s2, c[0], False)
            x, y = self.ev(fr, s1, c[1]), self.ev(fr, s2, c[2])
            xv, yv = self.whole(s1, x), self.whole(s2, y)
            lost = NOTHING
            if (not xv and self.blank(fr.f, c[1]) and yv) or (not yv and self.blank(fr.f, c[2]) and xv):
                if not {s for s, o in xv | yv} & self.asked(fr, st, c[0]):
                    lost = atom("lost")
            st.take(join(s1, s2, self.init))
            return x if x == y else ("val", xv | yv | lost)
        if k == "lambda":
            fs = self.P.lambdas_of(nd)
            return ("lam", (fs[0] if fs else None, fr.this, dict(st.env)))
        if k in ("ctor", "rew", "new", "ilist", "init"):
            return self.ctor(fr, st, n)
        if k == "call":
            return self.call(fr, st, n)
        if k == "throw":
            st.dead = True
            return ("val", NOTHING)
        if k in ("var", "decl"):
            self.stmt(fr, st, n)
            return ("val", NOTHING)
        r = NOTHING
        for x in c:
            if x is not None and x >= 0:
                r |= self.val(fr, st, x)
        return ("val", r)

    def parity(self, fr, n):
        """is the subscript running backwards?"""
        f = fr.f
        p = 0
        n = memo.unwrap(f, n)
        m = f.N[n]
        if m["k"] == "bin" and m.get("o") == "-":
            p ^= self.parity(fr, m["c"][0])
            if any(f.N[y]["k"] == "ref" and f.N[y]["d"] is not None and f.N[y]["d"].k in ("var", "local")
                   and not f.N[y]["d"].t.const for y in f.subtree(m["c"][1])):
                p ^= 1
            return p
        if m["k"] == "ref":
            return 1 if m["d"] in fr.desc else 0
        for x in m.get("c", ()):
            if x is not None and x >= 0:
                p ^= self.parity(fr, x)
        return p

    def at(self, fr, st, b, i):
        if b[0] == "obj":
            b = ("loc", (b[1], "<base>"))
        if self.parity(fr, i):
            if b[0] == "loc":
                return ("rloc", b[1])
            return ("val", tog(self.whole(st, b), "rev"))
        return b

    def arith(self, fr, nd, a, b, c):
        o = nd.get("o")
        if o == "-":
            return a | tog(b, "neg")
        if o in ("^", "!=") and not (a and b):
            # flag ^ true, flag != true
            x = a or b
            other = c[1] if a else c[0]
            m = fr.f.N[memo.unwrap(fr.f, other)]
            if m["k"] == "bool":
                return tog(x, "not") if m["v"] else x
            if m["k"] == "int":
                return tog(x, "not") if str(m["v"]) not in ("0",) else x
        if o == "==" and not (a and b):
            other = c[1] if a else c[0]
            m = fr.f.N[memo.unwrap(fr.f, other)]
            if m["k"] == "bool":
                return tog(a or b, "not") if not m["v"] else (a or b)
        if o in ("*", "/") and not (a and b):
            other = memo.unwrap(fr.f, c[1] if a else c[0])
            m = fr.f.N[other]
            if m["k"] in ("un",) and m.get("o") == "-":
                return tog(a or b, "neg")
            if m["k"] == "int" and str(m.get("v", "")).startswith("-"):
                return tog(a or b, "neg")
        return a | b

    def stringy(self, t):
        return t is not None and t.r is not None and "basic_string" in t.r

    def store(self, st, l, v):
        if l[0] == "rloc":
            st.m[l[1]] = tog(v, "rev")
        elif l[0] == "loc":
            st.m[l[1]] = v

    def load(self, st, l):
        if l[0] == "rloc":
            return tog(self.get(st, l[1]), "rev")
        return self.whole(st, l)

    def assign(self, fr, st, o, l, r, c):
        if l[0] == "obj":
            if r[0] == "obj":
                for fd in self.fields(self.objs[l[1]]):
                    st.m[(l[1], fd)] = self.get(st, (r[1], fd))
            else:
                w = self.whole(st, r)
                for fd in self.fields(self.objs[l[1]]):
                    st.m[(l[1], fd)] = w
            return l
        rv = self.load(st, r)
        n = memo.unwrap(fr.f, c[0])
        if n is not None and n >= 0 and fr.f.N[n]["k"] == "ref":
            st.tv.pop(fr.f.N[n]["d"], None)
        if l[0] not in ("loc", "rloc"):
            return l
        if o == "=":
            # a local handle is rebound, not written through
            n = memo.unwrap(fr.f, c[0])
            m = fr.f.N[n]
            if m["k"] == "ref" and m["d"] is not None and not (m["d"].t is not None and m["d"].t.ref) \
                    and l == st.env.get(m["d"]):
                o2 = self.newobj(None)
                st.m[(o2, "")] = rv
                st.env[m["d"]] = ("loc", (o2, ""))
                return st.env[m["d"]]
            self.store(st, l, rv)
        else:
            nd = {"o": (o or "")[:-1]}
            old = self.load(st, l)
            if self.markup(fr, c[0]) and o == "+=" and not rv:
                self.store(st, l, tog(old, "mark"))
            else:
                self.store(st, l, self.arith(fr, nd, old, rv, c))
        return l

    def markup(self, fr, n):
        t = fr.f.N[memo.unwrap(fr.f, n)].get("t")
        return self.stringy(t)

    # -------------------------------------------------------------- calls
    def argsof(self, fr, st, xs):
        out = []
        for x in xs:
            if x is None or x < 0:
                out.append(("val", NOTHING))
            else:
                out.append(self.ev(fr, st, x))
        return out

    def clean(self, v):
        return ("loc", v[1]) if v[0] == "rloc" else v

    def wholes(self, st, vs):
        r = NOTHING
        for v in vs:
            if v[0] == "rloc":
                r |= tog(self.get(st, v[1]), "rev")
            elif v[0] in ("val", "loc", "obj", "lam"):
                r |= self.whole(st, v)
        return r

    def apply(self, fr, st, fn, args):
        """value of calling a callable on abstract arguments"""
        if fn[0] == "lam" and fn[1][0] is not None:
            g, this, cap = fn[1]
            if g.u in self.stack:
                return ("val", self.wholes(st, args))
            fr2 = Frame(g, this)
            s2 = st.copy()
            env = dict(cap)
            env.update({k: v for k, v in st.env.items() if k in cap})
            for i, p in enumerate(g.p):
                a = args[i] if i < len(args) else ("val", NOTHING)
                if not p["t"].ref and not self.smart(p["t"]):
                    a = self.copyof(s2, self.clean(a), p["t"])
                env[p["d"]] = self.clean(a)
            keep = st.env
            s2.env = env
            out, v = self.body(fr2, s2)
            if out.dead:
                st.dead = True
                return ("val", NOTHING)
            st.m = out.m
            for kk in keep:
                if kk in out.env:
                    keep[kk] = out.env[kk]
            if v[0] == "loc" and v[1][0] not in self.objs:
                v = ("val", NOTHING)
            return v
        if fn[0] == "fn":
            d = fn[1]
            if d.n in ("adjoint", "_adjoint"):
                a = args[0] if args else ("val", NOTHING)
                return ("val", tog(self.whole(st, self.clean(a)), "adj"))
            if d.n == "conj":
                return ("val", tog(self.wholes(st, args), "conj"))
        return ("val", self.wholes(st, args))

    def each(self, fr, st, rng, fn):
        """for_each"""
        v = rng
        if v[0] == "obj":
            v = ("loc", (v[1], "<base>"))
        if fn[0] == "fn" and fn[1].n == "adjoint" and v[0] == "loc":
            st.m[v[1]] = tog(self.get(st, v[1]), "adj")
            return
        self.apply(fr, st, fn, [v])

    def strongly(self, st, v, op):
        v = self.clean(v)
        if v[0] == "obj":
            v = ("loc", (v[1], "<base>"))
        if v[0] == "loc":
            st.m[v[1]] = tog(self.get(st, v[1]), op)
            return True
        return False

    def call(self, fr, st, n):
        f = fr.f
        nd = f.N[n]
        d = nd["d"]
        c = list(nd.get("c", ()))
        objn = None
        if nd.get("m"):
            objn, c = (c[0] if c else -1), c[1:]
        name = d.n if d is not None else None
        o = nd.get("o")
        args_n = c
        args = None
        # operators
        if d is None:
            args = self.argsof(fr, st, c)
            fn = self.ev(fr, st, objn) if objn is not None and objn >= 0 else \
                (self.ev(fr, st, nd["ce"]) if isinstance(nd.get("ce"), int) else ("val", NOTHING))
            return self.apply(fr, st, fn, args)
        obj = self.ev(fr, st, objn) if objn is not None and objn >= 0 else None
        if obj is not None and obj[0] == "lam":
            return self.apply(fr, st, obj, self.argsof(fr, st, c))
        if o == "=" and (obj is not None or len(c) == 2):
            if obj is None:
                obj = self.ev(fr, st, c[0])
                objn, c = c[0], c[1:]
            r = self.ev(fr, st, c[0])
            return self.assign(fr, st, "=", obj, self.clean(r) if r[0] != "rloc" else r, [objn, c[0]])
        args = self.argsof(fr, st, c)
        if o == "|" and args:
            # pipe: value | closure
            allv = ([obj] if obj is not None else []) + args
            base, cl = allv[0], allv[-1]
            if cl[0] == "clos":
                return self.closure(fr, st, cl, base)
            return ("val", self.wholes(st, allv))
        q = d.q or ""
        callee = None
        if o == "()" and objn is not None:
            cn = memo.unwrap(f, objn)
            cd = f.N[cn].get("d")
            callee = cd.q if cd is not None else None
            if callee and obj is not None and obj[0] not in ("lam",) and cd.k in ("var", "gvar") and \
                    ("ranges::" in callee or "views::" in callee or "std::" in callee):
                return self.algo(fr, st, cd.n, "views" in callee, None, args, nd)
            if obj is not None and obj[0] in ("loc", "obj"):
                if not (obj[0] == "obj" and self.P.targets(f, nd)):
                    w = self.whole(st, self.clean(obj))
                    for a in args:      # may write its arguments
                        if a[0] == "loc" and a[1][0] not in self.sym:
                            st.m[a[1]] = self.get(st, a[1]) | w
                    return ("val", w | self.wholes(st, args))
        if o == "[]" and obj is not None:
            return self.at(fr, st, self.clean(obj), c[0])
        if o in ("*", "->") and not args and obj is not None:
            return obj
        if o in ("!",) and obj is not None:
            return ("val", tog(self.whole(st, self.clean(obj)), "not"))
        if o in ("-",) and obj is not None and not args or (o == "-" and obj is None and len(args) == 1):
            return ("val", tog(self.wholes(st, [obj] if obj is not None else args), "neg"))
        if o in ("+", "-", "*", "/", "==", "!=", "^"):
            allv = ([obj] if obj is not None else []) + args
            if len(allv) == 2:
                a, b = (self.wholes(st, [v]) for v in allv)
                cn = ([objn] if obj is not None else []) + list(c)
                if o == "+" and self.markup(fr, n) and not (a and b):
                    return ("val", tog(a | b, "mark"))
                return ("val", self.arith(fr, nd, a, b, cn))
        if o in ("+=", "-=", "*=", "/=", "^=") and (obj is not None or len(args) == 2):
            l, r = (obj, args[0]) if obj is not None else (args[0], args[1])
            if l[0] == "obj":
                l2 = l
                r2 = self.wholes(st, [r])
                for fd in self.fields(self.objs[l2[1]]):
                    st.m[(l2[1], fd)] = self.get(st, (l2[1], fd)) | r2
                return l
            cn = [objn if obj is not None else c[0], c[-1]]
            return self.assign(fr, st, o, l, r, cn)
        if name in ("adjoint", "_adjoint", "conjugate_") :
            if obj is None and not (self.assume and args and nd.get("t") is not None and nd["t"].enum):
                a = self.clean(args[0]) if args else ("val", NOTHING)
                return ("val", tog(self.whole(st, a), "adj"))
            if obj is not None and not (obj[0] == "obj" and self.P.targets(f, nd)):
                t = f.N[memo.unwrap(f, objn)].get("t") if objn is not None and objn >= 0 else None
                # a call of the base's adjoint by its qualified name is not the adjoint of the element
                part = nd.get("nv") and t is not None and t.r and d.c and memo.strip(t.r) != memo.strip(d.c)
                self.strongly(st, obj, "padj" if part else "adj")
                return ("val", NOTHING)
        if name == "conj" and obj is None and not (d.repo and False):
            return ("val", tog(self.wholes(st, args), "conj"))
        if name == "clone" and obj is not None:
            return self.copyof(st, self.clean(obj), None)
        if name in ("move", "forward", "as_const", "addressof", "static_pointer_cast",
                    "dynamic_pointer_cast", "ref", "cref", "to_address", "as_shared_ptr") and \
                (q.startswith("std") or q.startswith("boost")) and len(args) == 1:
            return args[0]
        tg = self.P.targets(f, nd)
        if nd.get("nv") or not d.vi:
            tg = tg[:1]
        inline = None
        if tg and all(g.u not in self.stack for g in tg):
            if obj is not None and obj[0] == "obj":
                q0 = self.objs[obj[1]]
                if d.vi and not nd.get("nv"):
                    tg = [g for g in tg if g.c == q0 or memo.strip(g.c or "") == memo.strip(q0 or "")] or tg[:1]
                inline = tg[0]
            elif obj is None and (any(a[0] in ("lam", "obj", "loc", "rloc") for a in args) or
                                  self.wholes(st, args)):
                inline = tg[0]
            elif obj is not None and obj[0] in ("loc", "rloc"):
                # a method of a part: reads or changes only the part
                inline = None
        if inline is not None and len(self.stack) < MAXD - 1 and \
                not name.startswith(("validate", "canonicalize", "to_latex", "hash")):
            return self.inline(fr, st, inline, obj, args, nd)
        return self.external(fr, st, nd, name, q, obj, objn, args, c)

    def inline(self, fr, st, g, obj, args, nd):
        fr2 = Frame(g, obj[1] if obj is not None and obj[0] == "obj" else None)
        s2 = st.copy()
        env = {}
        for i, p in enumerate(g.p):
            a = args[i] if i < len(args) else ("val", NOTHING)
            if a[0] == "lam" or a[0] in ("fn", "clos"):
                env[p["d"]] = a
            elif p["t"].ref or p["t"].ptr or self.viewy(p["t"]) or self.smart(p["t"]):
                env[p["d"]] = ("val", self.wholes(s2, [a])) if a[0] == "rloc" else a
            else:
                a = ("val", self.wholes(s2, [a])) if a[0] == "rloc" else a
                env[p["d"]] = self.copyof(s2, a, p["t"])
        keep = st.env
        s2.env = env
        out, v = self.body(fr2, s2)
        if out.dead:
            st.dead = True
            return ("val", NOTHING)
        st.m = out.m
        st.env = keep
        return v

    def closure(self, fr, st, cl, base):
        return self.algo(fr, st, cl[1], True, None, [base] + list(cl[2]), None)

    def algo(self, fr, st, name, view, obj, args, nd):
        """standard and range algorithms and adaptors"""
        rng = [a for a in args if a[0] not in ("lam", "fn", "clos")]
        fns = [a for a in args if a[0] in ("lam", "fn")]
        if view or name in ("transform", "to"):
            if name == "transform" and fns and not rng:
                return ("clos", "transform", tuple(fns))
            if not rng:
                return ("clos", name, tuple(args))
        if name == "transform" and fns:
            if not view and len(rng) >= 2:
                # transform(b, e, out, fn): the destination
                v = self.apply(fr, st, fns[0], [self.clean(rng[0])])
                w = self.wholes(st, [v])
                dst = self.clean(rng[-1])
                if dst[0] == "obj":
                    dst = ("loc", (dst[1], "<base>"))
                if dst[0] == "loc":
                    src = self.clean(rng[0])
                    same = dst == src or (src[0] == "obj" and dst[1] == (src[1], "<base>"))
                    st.m[dst[1]] = w if same else (self.get(st, dst[1]) | w)
                return dst
            src = rng[0]
            w = self.wholes(st, [src])
            v = self.apply(fr, st, fns[0], [("val", w)])
            return ("val", self.wholes(st, [v]))
        if name == "for_each" and fns and rng:
            r = self.clean(rng[0])
            self.each(fr, st, r, fns[0])
            return ("val", NOTHING)
        if name == "reverse":
            if view:
                return ("val", tog(self.wholes(st, rng[:1]), "rev"))
            self.strongly(st, rng[0], "rev")
            return ("val", NOTHING)
        if name in ("rbegin", "rend", "crbegin", "crend", "make_reverse_iterator", "reverse_copy"):
            return ("val", tog(self.wholes(st, rng[:1]), "rev"))
        if name in ("begin", "end", "cbegin", "cend", "front", "back", "data", "all", "ref", "get"):
            return rng[0] if rng else ("val", NOTHING)
        if name in ("swap", "iter_swap") and len(rng) == 2:
            a, b = rng
            if a[0] == "obj" and b[0] == "obj":
                for fd in self.fields(self.objs[a[1]]):
                    x, y = self.get(st, (a[1], fd)), self.get(st, (b[1], fd))
                    st.m[(a[1], fd)], st.m[(b[1], fd)] = y, x
                return ("val", NOTHING)
            if a[0] in ("loc", "rloc") and b[0] in ("loc", "rloc"):
                if a[1] == b[1]:
                    if a[0] != b[0]:
                        st.m[a[1]] = tog(self.get(st, a[1]), "rev")
                    return ("val", NOTHING)
                x, y = self.load(st, a), self.load(st, b)
                self.store(st, a, y)
                self.store(st, b, x)
            return ("val", NOTHING)
        if name == "exchange" and len(rng) == 2:
            old = self.load(st, rng[0])
            self.store(st, rng[0], self.load(st, rng[1]))
            return ("val", old)
        if name in ("copy", "move") and len(rng) >= 2:
            dst = self.clean(rng[-1])
            if dst[0] == "obj":
                dst = ("loc", (dst[1], "<base>"))
            if dst[0] == "loc":
                st.m[dst[1]] = self.get(st, dst[1]) | self.wholes(st, rng[:1])
            return dst
        if name in ("back_inserter", "inserter", "front_inserter"):
            return rng[0]
        for fn in fns:
            self.apply(fr, st, fn, [("val", self.wholes(st, rng))])
        w = self.wholes(st, rng)
        if name not in PASS and not view:
            w = S_with(w, "?")
        return ("val", w)

    def external(self, fr, st, nd, name, q, obj, objn, args, c):
        if obj is None:
            if q.startswith(("std::", "ranges::", "boost::")):
                return self.algo(fr, st, name, "views" in q, None, args, nd)
            if name in ("ex", "make_shared", "make_unique"):
                return ("val", self.wholes(st, args))
            for a in args:
                if a[0] == "lam":
                    self.apply(fr, st, a, [("val", self.wholes(st, args))])
            return ("val", self.wholes(st, args))
        o = self.clean(obj)
        if o[0] == "obj":
            if d_is_container(self, self.objs[o[1]], nd):
                o = ("loc", (o[1], "<base>"))
        av = self.wholes(st, args)
        t = nd["d"].c or ""
        if name in ("rbegin", "rend", "crbegin", "crend"):
            return ("val", tog(self.whole(st, o), "rev"))
        if o[0] == "loc" and name in ("real", "imag") and len(args) <= 1 and \
                memo.strip(t).split("::")[-1] in ("Complex", "complex"):
            if not args:
                return ("val", S_with(self.get(st, o[1]), "." + name[:2]))
            src = {(x, p - {".im"}) for x, p in av} if name == "imag" else None
            if src is not None and av and all(".im" in p for _, p in av):
                st.m[o[1]] = frozenset((x, (p - {"neg"}) ^ {"conj"} if "neg" in p else p) for x, p in src)
            elif name == "imag":
                st.m[o[1]] = S_with(self.get(st, o[1]) | av, "?")
            return ("val", NOTHING)
        if o[0] == "loc":
            if "basic_string" in t:
                if name in ("pop_back", "push_back", "append", "insert", "erase", "resize",
                            "remove_suffix"):
                    if av and name in ("append", "push_back", "insert"):
                        st.m[o[1]] = self.get(st, o[1]) | av
                    else:
                        st.m[o[1]] = tog(self.get(st, o[1]), "mark")
                    return ("val", NOTHING)
                if name == "substr":
                    return ("val", tog(self.get(st, o[1]), "mark"))
                if name in ("back", "front", "size", "empty", "length"):
                    return ("val", NOTHING)
            if name in ("push_back", "emplace_back", "append", "emplace"):
                st.m[o[1]] = self.get(st, o[1]) | av
                return o
            if name in ("insert", "push_front", "emplace_front"):
                ins = self.wholes(st, args[1:]) if len(args) > 1 else av
                if name != "insert" or (args and self.atfront(fr, c[0])):
                    ins = tog(ins, "rev")
                st.m[o[1]] = self.get(st, o[1]) | ins
                return o
            if name == "assign":
                st.m[o[1]] = av
                return o
            if name == "clear":
                st.m[o[1]] = NOTHING
                return o
            if name == "reset":
                st.m[o[1]] = av
                return o
            if name == "swap" and len(args) == 1:
                return self.algo(fr, st, "swap", False, None, [o, args[0]], nd)
            return o if not av else ("val", self.whole(st, o) | av)
        return ("val", self.whole(st, o) | av)

    def parts(self, st, args):
        """a complex number put together from the parts of another"""
        a, b = (self.wholes(st, [v]) for v in args)
        if not a or not b or not all(".re" in o for _, o in a) or not all(".im" in o for _, o in b):
            return None
        if any("neg" in o for _, o in a):
            return S_with(a | b, "?")
        return frozenset((s, (o - {".im", "neg"}) ^ (frozenset(["conj"]) if "neg" in o else NOTHING)) for s, o in b)

    def atfront(self, fr, n):
        for y in fr.f.subtree(n):
            m = fr.f.N[y]
            if m["k"] in ("call", "ref") and m["d"] is not None and \
                    m["d"].n in ("begin", "cbegin"):
                return True
        return False

    # ---------------------------------------------------------------- ctor
    def ctor(self, fr, st, n):
        f = fr.f
        nd = f.N[n]
        c = [x for x in nd.get("c", ()) if x is not None and x >= 0]
        t = nd.get("t")
        d = nd.get("d")
        tg = self.P.targets(f, nd) if nd["k"] in ("ctor", "rew") and d is not None else []
        args = self.argsof(fr, st, c)
        if tg and tg[0].imp and tg[0].n != (memo.strip(tg[0].c or "").split("::")[-1]):
            # inherited constructor
            want = [p["t"].s for p in tg[0].p]
            tg = [g for g in self.P.fns.values() if g.fk in ("ctor", "copy", "move") and not g.imp and
                  g.n == tg[0].n and [p["t"].s for p in g.p] == want][:1]
        if self.modelled(t) and nd["k"] != "rew":
            q = self.cls(t)
            if len(args) == 1 and args[0][0] == "obj":
                return self.copyof(st, args[0], None)
            v = self.parts(st, args) if len(args) == 2 else None
            if v is not None:
                return ("val", v)
            o = self.newobj(q)
            if tg and tg[0].u not in self.stack:
                self.construct(fr, st, tg[0], o, args)
            else:
                w = self.wholes(st, args)
                for fd in self.fields(q):
                    st.m[(o, fd)] = w
            return ("obj", o)
        v = self.parts(st, args) if len(args) == 2 else None
        if v is not None:
            return ("val", v)
        if len(args) == 1:
            return args[0] if args[0][0] in ("lam", "clos", "fn", "loc") and (
                args[0][0] != "loc" or self.viewy(t) or (t is not None and t.r == "sequant::ExprPtr")) \
                else ("val", self.wholes(st, args))
        return ("val", self.wholes(st, args))

    def construct(self, fr, st, g, o, args):
        fr2 = Frame(g, o)
        s2 = st.copy()
        env = {}
        for i, p in enumerate(g.p):
            a = args[i] if i < len(args) else ("val", NOTHING)
            if a[0] == "rloc":
                a = ("val", self.wholes(s2, [a]))
            if a[0] not in ("lam", "fn", "clos") and not p["t"].ref and not self.viewy(p["t"]) \
                    and not p["t"].ptr:
                a = self.copyof(s2, a, p["t"])
            env[p["d"]] = a
        keep = st.env
        s2.env = env
        self.stack.append(g.u)
        try:
            for i in g.inits:
                e = i.get("e")
                if e is None or e < 0:
                    continue
                dd = i.get("d")
                if dd is not None:
                    v = self.ev(fr2, s2, e)
                    s2.m[(o, dd.n)] = self.wholes(s2, [v])
                else:
                    m = g.N[memo.unwrap(g, e)]
                    bt = i.get("b")
                    if m["k"] in ("ctor",) and m["d"] is not None:
                        tg = self.P.targets(g, m)
                        a2 = self.argsof(fr2, s2, [x for x in m.get("c", ()) if x is not None and x >= 0])
                        own = self.fields(self.objs[o])
                        if tg and tg[0].u not in self.stack and memo.strip(tg[0].c or "").startswith("sequant"):
                            self.construct(fr2, s2, tg[0], o, a2)
                        elif "<base>" in own and "vector" in (m["t"].s if m.get("t") is not None else ""):
                            s2.m[(o, "<base>")] = self.wholes(s2, a2)
                        elif len(a2) == 1 and a2[0][0] == "obj":
                            for fd in own:
                                s2.m[(o, fd)] = self.get(s2, (a2[0][1], fd))
                    else:
                        self.ev(fr2, s2, e)
        finally:
            self.stack.pop()
        out, _ = self.body(fr2, s2)
        if out.dead:
            st.dead = True
            return
        st.m = out.m
        st.env = keep


def d_is_container(I, q, nd):
    t = nd["d"].c or ""
    return "<base>" in I.fields(q) and ("vector" in t or not t.startswith("sequant"))
