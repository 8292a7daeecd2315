"""Freshness of memoized members: a path-sensitive may-be-stale analysis.

For a memo (a cached member of a class) and the members its value is computed
from, every function is analysed over its CFG.  The state says, per object the
function can reach, whether the memo is certainly empty, and which writes to the
sources have not been followed by a reset.  Writes while the memo is certainly
empty need no reset.  A write guarded bookkeeping flag (`if (mutated) reset()`)
is understood.  Stale objects left behind by non-public functions are charged to
their callers.
"""
from collections import defaultdict

from . import effects

CTORS = ("ctor", "copy", "move")
EMPTYING = {"reset", "clear"}
FILLING = {"operator=", "emplace", "swap", "assign"}


def strip(q):
    """drop template arguments"""
    out, d = [], 0
    for ch in q or "":
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    return "".join(out)


def fkey(d):
    return (strip(d.c), d.n)


class Spec:
    """cls/fields: the memo; src: {(class, field)}; basecls: classes whose own
    container base is a source"""

    def __init__(self, name, memos, src, basecls=(), shallow=False):
        self.name = name
        self.memos = set(memos)
        self.src = set(src)
        self.basecls = set(basecls)
        self.shallow = shallow      # only replacing a source as a whole counts


def unwrap(f, n):
    while n is not None and n >= 0 and f.N[n]["k"] in ("cast", "x") and \
            len(f.N[n].get("c", ())) == 1:
        n = f.N[n]["c"][0]
    return n


def objpaths(a, f, n, arrow):
    vs = a.ev(n)
    out = set()
    if f.N[unwrap(f, n)]["k"] == "this":
        return {p for k, p in vs}
    if arrow:
        vs = a.deref(vs, None)
    for k, p in vs:
        if k in ("L", "P"):
            out |= set(a.norm(p))
    return out


class Sources:
    """which members the value of a memo is computed from"""

    def __init__(self, P, E, AN):
        self.P, self.E, self.AN = P, E, AN

    def reads(self, fn, klass, memos, root=(("t",), ()), mut=False):
        """fields of *this (klass) read by fn and what it calls on *this"""
        P = self.P
        kl = {klass} | P.all_bases(klass)
        out, base = set(), False
        seen = set()
        work = [(fn, root)]
        while work:
            f, root = work.pop()
            if (f.u, root) in seen:
                continue
            seen.add((f.u, root))
            a = self.AN(f)
            for x in f.walk():
                nd = f.N[x]
                if nd.get("as"):
                    continue
                k = nd["k"]
                if k == "mem" and nd["d"] is not None and nd["d"].k == "field":
                    if nd["d"].mu and not mut:
                        continue
                    ps = objpaths(a, f, nd["c"][0], nd.get("ar"))
                    if root in ps:
                        out.add(fkey(nd["d"]))
                elif k == "lambda":
                    for g in P.lambdas_of(nd):
                        work.append((g, root if root[0] == ("t",) else root))
                elif k in ("call", "ctor"):
                    obj, args = a.argvals(nd)
                    tg = P.targets(f, nd)
                    if obj is not None and obj >= 0:
                        if root in objpaths(a, f, obj, nd.get("ar")):
                            if tg:
                                for g in tg:
                                    if g.c is None or g.c in kl or g.lam or \
                                            strip(g.c) in {strip(z) for z in kl}:
                                        work.append((g, (("t",), ())))
                            elif not (nd["d"] and nd["d"].repo):
                                base = True
                    for i, z in enumerate(args):
                        if z < 0:
                            continue
                        vs = a.ev(z)
                        if any(p == root and kd in ("L", "P") for kd, p in vs):
                            if tg:
                                for g in tg:
                                    if i < len(g.p):
                                        work.append((g, (("p", i), ())))
                            else:
                                base = True
        return out, base


ELEM = (("[]",), ("*",))
NONE = (frozenset(), frozenset())


class Memo:
    def __init__(self, P, E, AN, spec, fillers):
        """fillers: uids of functions that may (transitively) compute the memo"""
        self.P, self.E, self.AN, self.S = P, E, AN, spec
        self.fillers = fillers
        self.D = {}        # u -> {(path): (u, node, text)} left stale
        self.RS = {}       # u -> frozenset(paths certainly reset at exit)
        self.macc, self.mov = {}, {}
        for c in P.clss:
            for m in c.methods:
                self.macc[m["u"]] = m.get("acc", 0)
                self.mov[m["u"]] = m.get("ov", ())
        self.nwrites = 0
        self.nresets = 0
        self.local = {}
        self.act = {}
        self.final = {}    # public functions that leave an object stale
        self.fills = []

    def public(self, f):
        """part of the interface: the obligation ends here"""
        P = self.P
        if f.lam or f.par:
            return False
        if f.c:
            if f.acc == 0:
                return True
            seen, work = set(), list(f.ov)
            while work:
                u = work.pop()
                if u in seen:
                    continue
                seen.add(u)
                if self.macc.get(u) == 0:
                    return True
                work += self.mov.get(u, ())
            return False
        q = f.q
        return not ("detail::" in q or "(anonymous" in q or "impl::" in q)

    # ------------------------------------------------------------------
    def nsrc(self, steps):
        n = 0
        for i, s in enumerate(steps):
            if not isinstance(s, str) and fkey(s) in self.S.src and \
                    (not self.S.shallow or i == len(steps) - 1):
                n += 1
        return n

    def splits(self, q, upto):
        """objects whose source the path q goes through (first `upto`)"""
        r, s = q
        out = []
        for i, st in enumerate(s):
            if not isinstance(st, str) and fkey(st) in self.S.src and \
                    (not self.S.shallow or i == len(s) - 1):
                if len(out) < upto:
                    out.append((r, s[:i]))
        return out

    def run(self):
        P = self.P
        fns = [f for f in P.fns.values() if f.g]
        for f in fns:
            self.D[f.u] = {}
            self.RS[f.u] = None            # top: not yet known
        deps = self.E.callers
        work = list(fns)
        inq = {f.u for f in fns}
        rounds = defaultdict(int)
        # must-reset starts optimistic for recursion, then shrinks; dirt grows
        import heapq
        while work:
            f = work.pop(0)
            inq.discard(f.u)
            rounds[f.u] += 1
            if rounds[f.u] > 12:
                continue
            if not self.relevant(f):
                d, rs = {}, NONE
            else:
                d, rs = self.fn(f)
                if d and self.public(f):
                    self.final[f.u] = d
                    d = {}
                elif f.u in self.final:
                    del self.final[f.u]
            if rs != self.RS[f.u] or set(d) != set(self.D[f.u]):
                ch = self.RS[f.u] is not None or d or rs != NONE
                self.RS[f.u] = rs
                self.D[f.u] = d
                if ch:
                    for c in deps[f.u]:
                        if c not in inq and c in P.fns and P.fns[c].g:
                            inq.add(c)
                            work.append(P.fns[c])
        return self

    def relevant(self, f):
        """cheap filter: writes a source, touches a memo, or calls one that does"""
        if f.u in self.local:
            if self.local[f.u]:
                return True
        else:
            v = False
            for nd in f.N:
                if nd["k"] == "mem" and nd.get("d") is not None and \
                        nd["d"].k == "field" and (
                            fkey(nd["d"]) in self.S.memos or fkey(nd["d"]) in self.S.src):
                    v = True
                    break
            if not v:
                for w in self.E.W.get(f.u, ()):
                    if self.nsrc(w[1]):
                        v = True
                        break
            if not v and self.S.basecls:
                for nd in f.N:
                    t = nd.get("t")
                    if t is not None and t.r and strip(t.r) in self.S.basecls:
                        v = True
                        break
            self.local[f.u] = v
            if v:
                return True
        for nd in f.N:
            if nd["k"] in ("call", "ctor"):
                for g in self.P.targets(f, nd):
                    if self.D.get(g.u) or (self.RS.get(g.u) or NONE) != NONE:
                        return True
            elif nd["k"] == "lambda":
                for g in self.P.lambdas_of(nd):
                    if self.D.get(g.u):
                        return True
        return False

    # ------------------------------------------------------------------
    def opobjs(self, f, a):
        """paths of objects that are themselves containers of their source"""
        out = set()
        if not self.S.basecls:
            return out
        if f.c and strip(f.c) in self.S.basecls and not f.st:
            out.add((("t",), ()))
        for x in f.walk():
            nd = f.N[x]
            t = nd.get("t")
            if t is None or not t.r or strip(t.r) not in self.S.basecls:
                continue
            if nd["k"] in ("ref", "mem", "call", "un", "cast", "this"):
                for k, p in a.ev(x):
                    if t.ptr and k == "P":
                        out.add(p)
                    elif k == "L" and not t.ptr:
                        out |= set(a.norm(p))
        return out

    def events(self, f):
        """node -> list of events"""
        a = self.AN(f)
        P = self.P
        ev = defaultdict(list)
        ops = self.opobjs(f, a)
        par_ret = False
        for q, x, why in a.sites:
            nd = f.N[x]
            objs = set()
            k = nd["k"]
            if k in ("call", "ctor", "lambda"):
                continue
            for o in self.splits(q, 99):
                objs.add(o)
            for o in ops:
                if q[0] == o[0] and len(q[1]) > len(o[1]) and \
                        q[1][:len(o[1])] == o[1] and q[1][len(o[1])] in ("[]", "*"):
                    objs.add(o)
            for o in objs:
                ev[x].append(("w", o, why))
        for x in f.walk():
            nd = f.N[x]
            k = nd["k"]
            if k == "asg" or (k == "call" and nd.get("c")):
                m = unwrap(f, nd["c"][0]) if nd["c"] else None
                if m is not None and m >= 0 and f.N[m]["k"] == "mem" and \
                        f.N[m]["d"] is not None and f.N[m]["d"].k == "field" and \
                        fkey(f.N[m]["d"]) in self.S.memos:
                    op = "operator=" if k == "asg" else (nd["d"].n if nd.get("d") is not None else "")
                    kind = None
                    if op in EMPTYING and all(
                            z < 0 or f.N[z]["k"] in ("defarg", "null")
                            for z in nd["c"][1:]):
                        kind = "reset"
                    elif k == "asg" or op in FILLING:
                        v = unwrap(f, nd["c"][1]) if len(nd["c"]) > 1 else None
                        vn = f.N[v] if v is not None and v >= 0 else None
                        kind = "fill"
                        if vn is not None:
                            if vn["k"] == "ref" and vn["d"] is not None and \
                                    vn["d"].n == "nullopt":
                                kind = "reset"
                            elif vn["k"] in ("null",):
                                kind = "reset"
                            elif vn["k"] == "bool" and not vn["v"]:
                                kind = "reset"
                            elif vn["k"] in ("ctor", "ilist") and not vn["c"]:
                                kind = "reset"
                            elif vn["k"] == "ctor" and len(vn["c"]) == 1:
                                w = unwrap(f, vn["c"][0])
                                if w >= 0 and f.N[w]["k"] == "ref" and \
                                        f.N[w]["d"] is not None and f.N[w]["d"].n == "nullopt":
                                    kind = "reset"
                                if w >= 0 and f.N[w]["k"] == "null":
                                    kind = "reset"
                    if kind:
                        for o in objpaths(a, f, f.N[m]["c"][0], f.N[m].get("ar")):
                            ev[x].append((kind, o, fkey(f.N[m]["d"])))
                            self.fills.append((f, x, kind, m))
                        continue
            if k == "call" or k == "ctor":
                self.maint_events(f, a, x, nd, ev)
                self.call_events(f, a, x, nd, ops, ev)
            elif k == "lambda":
                for g in P.lambdas_of(nd):
                    cap = {c["d"]: c for c in nd["cap"] if "d" in c}

                    def mapped(path):
                        r, s = path
                        if r[0] == "c":
                            c = cap.get(r[1])
                            if c is not None and not c.get("r") and "*" not in s \
                                    and "…" not in s:
                                return
                            for b in a.own_root(r[1]):
                                yield from a.norm(effects.ext(b, *s))
                        elif r[0] in ("t", "g"):
                            yield path
                    for w in list(self.E.W.get(g.u, {})):
                        ns = self.nsrc(w[1])
                        for q in mapped(w):
                            for o in self.splits(q, self.nsrc(q[1]) - ns):
                                ev[x].append(("w", o, "in a lambda"))
                    for o, site in self.D.get(g.u, {}).items():
                        for q in mapped(o):
                            ev[x].append(("w", q, "in a lambda"))
            elif k == "var":
                c = nd.get("c")
                d = nd["d"]
                if d.t is not None and not d.t.ref and not d.t.ptr and c:
                    i = unwrap(f, c[0])
                    inode = f.N[i]
                    if inode["k"] == "ctor" and inode["d"].ck not in ("copy", "move"):
                        ev[x].append(("new", (("v", d), ()), ""))
                    if inode["k"] == "call" and inode.get("d") is not None and \
                            inode["d"].n in ("make_shared", "ex", "make_unique"):
                        ev[x].append(("new", (("v", d), ("*",)), ""))
            elif k == "ret" and nd.get("c") and self.public(f) and self.handsout(f):
                vs = a.ev(nd["c"][0])
                for kd, p in vs:
                    if (kd == "L" and f.t.ref) or kd == "P":
                        for q in a.norm(p):
                            for o in self.splits(q, 1):
                                ev[x].append(("out", o, "handed out for modification"))
        return ev

    def handsout(self, f):
        t = f.t
        if t is None or f.co or f.lam or f.fk in CTORS + ("dtor",):
            return False
        if t.ref:
            return not t.const
        if t.ptr:
            return not t.pconst
        s = t.s
        if "const_iterator" in s or "string_view" in s or "_view" in s and "const" in s:
            return False
        return effects.ptr_like(t)

    def maint_events(self, f, a, x, nd, ev):
        """the memo is updated in place, or handed to be overwritten"""
        for q, why in a.writes(x):
            for r, s in a.norm(q):
                for i, st in enumerate(s):
                    if isinstance(st, str) or fkey(st) not in self.S.memos:
                        continue
                    if i + 1 < len(s):
                        ev[x].append(("maint", (r, s[:i]), why))
                    elif not [g for g in self.P.targets(f, nd) if g.b is not None]:
                        ev[x].append(("fill", (r, s[:i]), fkey(st)))

    def call_events(self, f, a, x, nd, ops, ev):
        P = self.P
        obj, args = a.argvals(nd)
        tg = [g for g in P.targets(f, nd) if g.b is not None]
        if self.assign_event(f, a, x, nd, obj, args, ev):
            return
        if tg:
            resets = kills = None
            before = ev[x]
            ev[x] = []
            any_active = any(self.active(g) for g in tg)
            for g in tg:
                isctor = g.fk in CTORS
                for w in list(self.E.W.get(g.u, {})):
                    if isctor and w[0][0] == "t":
                        continue
                    ns = self.nsrc(w[1])
                    for kd, q in a.subst([("L", w)], obj, args, nd, g):
                        if kd not in ("L", "P"):
                            continue
                        extra = self.nsrc(q[1]) - ns
                        if extra > 0:
                            for o in self.splits(q, extra):
                                ev[x].append(("w", o, "by " + strip(g.q)))
                        # an element of an operator-like container
                        for o in ops:
                            if q[0] == o[0] and q[1][:len(o[1])] == o[1] and \
                                    q[1][len(o[1]):len(o[1]) + 1] in ELEM and \
                                    not self.inside_op(g, w):
                                ev[x].append(("w", o, "by " + strip(g.q)))
                for o in list(self.D.get(g.u, {})):
                    if isctor and o[0][0] == "t":
                        continue
                    for kd, q in a.subst([("L", o)], obj, args, nd, g):
                        if kd in ("L", "P"):
                            ev[x].append(("w", q, "by " + strip(g.q)))
                if g.u in self.fillers:
                    roots = []
                    if obj is not None and obj >= 0:
                        roots.append(("P" if f.N[unwrap(f, obj)]["k"] == "this" else "", obj))
                    roots += [("", z) for z in args if z >= 0]
                    for _, z in roots:
                        for kd, p in a.ev(z):
                            for q in a.norm(p):
                                ev[x].append(("hash", q, ""))
                rs, kl = set(), set()
                if len(tg) > 1 and any_active and not self.active(g):
                    continue         # neither writes nor hands out anything
                if self.RS.get(g.u) is None:
                    rs = kl = None
                elif not isctor:
                    for into, paths in ((rs, self.RS[g.u][0]), (kl, self.RS[g.u][1])):
                        for o in paths:
                            for kd, q in a.subst([("L", o)], obj, args, nd, g):
                                if kd in ("L", "P"):
                                    into.add(q)
                if rs is not None:
                    resets = rs if resets is None else resets & rs
                    kills = kl if kills is None else kills & kl
            ev[x] = before + [("kill", o, "call") for o in kills or ()] + ev[x]
            for o in resets or ():
                ev[x].append(("reset", o, "call"))
            if not ev[x]:
                del ev[x]
            return
        # external
        bases = None
        for q, why in a.writes(x):
            for qq in a.norm(q):
                sub = 0
                if why == "by a callback":
                    # beyond the range itself, the callback answers for it
                    if bases is None:
                        bases = [bp for z in args if z >= 0
                                 for kd, p in a.ev(z) if kd in ("L", "P")
                                 for bp in a.norm(p)]
                    ns = [self.nsrc(bp[1]) for bp in bases
                          if bp[0] == qq[0] and qq[1][:len(bp[1])] == bp[1]]
                    if ns:
                        sub = self.nsrc(qq[1]) - max(ns)
                for o in self.splits(qq, self.nsrc(qq[1]) - sub):
                    ev[x].append(("w", o, why))
                for o in ops:
                    if qq == o or (qq[0] == o[0] and qq[1][:len(o[1])] == o[1] and
                                   qq[1][len(o[1]):len(o[1]) + 1] in ELEM):
                        if qq == o and why in ("by operator=()", "by swap()"):
                            continue
                        ev[x].append(("w", o, why))
        # callbacks that leave the object they are given stale
        for z in args:
            if z < 0 or f.N[z]["k"] != "lambda":
                continue
            for g in P.lambdas_of(f.N[z]):
                for (r, s), site in list(self.D.get(g.u, {}).items()):
                    if r[0] != "p":
                        continue
                    for b in args:
                        if b == z or b < 0:
                            continue
                        bt = f.N[b].get("t")
                        for kd, p in a.ev(b):
                            if kd == "P":
                                ev[x].append(("w", effects.ext(p, *s), "by a callback"))
                            elif kd == "L":
                                ev[x].append(("w", effects.ext(p, *(("[]",) + s)),
                                              "by a callback"))

    def assign_event(self, f, a, x, nd, obj, args, ev):
        """whole-object memberwise assignment: the memo goes along"""
        d = nd.get("d")
        if nd["k"] != "call" or d is None or d.n != "operator=" or obj is None \
                or obj < 0 or len(args) != 1 or args[0] < 0:
            return False
        tg = self.P.targets(f, nd)
        cls = strip(d.c)
        if cls not in self.holders():
            return False
        if any(not (g.imp or g.dflt) for g in tg):
            return False
        dst = objpaths(a, f, obj, nd.get("ar"))
        src = unwrap(f, args[0])
        sn = f.N[src]
        if sn["k"] == "ctor" and sn["d"].ck not in ("copy", "move"):
            for o in dst:
                ev[x].append(("new", o, "assigned a new object"))
            return True
        sp = set()
        for kd, p in a.ev(args[0]):
            if kd in ("L", "P"):
                sp |= set(a.norm(p))
        for o in dst:
            ev[x].append(("assign", o, frozenset(sp)))
        return True

    def holders(self):
        h = getattr(self, "_holders", None)
        if h is None:
            own = {c for c, _ in self.S.memos}
            h = set(own)
            for k in list(self.P.derived):
                if strip(k) in own:
                    h |= {strip(z) for z in self.P.all_derived(k)}
            self._holders = h
        return h

    def active(self, g):
        v = self.act.get(g.u)
        if v is None:
            v = self.act[g.u] = \
                any(self.nsrc(p[1]) for p in self.E.W.get(g.u, ())) or \
                any(self.nsrc(p[1]) for _, p in self.E.R.get(g.u, ()))
        return v

    def inside_op(self, g, w):
        """the callee itself is responsible for the container it went through"""
        if w[0][0] == "t":
            return bool(g.c and strip(g.c) in self.S.basecls) and w[1][:1] in ELEM
        if w[0][0] == "p":
            t = g.p[w[0][1]]["t"]
            return bool(t is not None and t.r and strip(t.r) in self.S.basecls) and \
                w[1][:1] in ELEM
        return False

    # ------------------------------------------------------------------
    def flags_of(self, f, x):
        """local bool variables recording whether the write at x happened"""
        out = set()
        n = x
        seen_if = False
        for p in [x] + list(f.ancestors(x)):
            nd = f.N[p]
            k = nd["k"]
            if k == "asg" and nd.get("t") is not None:
                l = unwrap(f, nd["c"][0])
                if f.N[l]["k"] == "ref" and f.N[l]["t"] is not None and \
                        f.N[l]["t"].boolean:
                    out.add(f.N[l]["d"])
            elif k == "var" and nd["d"].t is not None and nd["d"].t.boolean:
                out.add(nd["d"])
            elif k == "if" or k == "cond":
                c = nd["c"][0]
                if c >= 0 and x in set(f.subtree(c)):
                    out.add(("if", p))
                    # `if (write) flag = true`
                    th = nd["c"][1] if len(nd["c"]) > 1 else -1
                    if th >= 0:
                        out |= self.sets_true(f, th)
            elif k == "block":
                # a sibling statement in the same block sets the flag
                for c in nd["c"]:
                    if c >= 0:
                        out |= self.sets_true(f, c, direct=True)
                break
        # the write is in a lambda: flags the lambda itself maintains
        nd = f.N[x]
        lams = []
        if nd["k"] == "lambda":
            lams = self.P.lambdas_of(nd)
        elif nd["k"] == "call":
            for z in nd["c"]:
                z = unwrap(f, z) if z >= 0 else z
                if z >= 0 and f.N[z]["k"] == "lambda":
                    lams += self.P.lambdas_of(f.N[z])
                elif z >= 0 and f.N[z]["k"] == "ref" and f.N[z].get("t") is not None and f.N[z]["t"].lam:
                    pass
        for g in lams:
            inner = None
            a = self.AN(g)
            for q, y, why in a.sites:
                if g.N[y]["k"] == "asg" and g.N[y].get("t") is not None and \
                        q[0][0] == "c" and q[1] == ():
                    continue
                fl = {z for z in self.flags_of(g, y) if not isinstance(z, tuple)}
                inner = fl if inner is None else inner & fl
            if inner:
                out |= inner
        return out

    def sets_true(self, f, n, direct=False):
        out = set()
        sub = [n] if direct else list(f.subtree(n))
        for y in sub:
            y = unwrap(f, y) if y >= 0 else y
            nd = f.N[y]
            if nd["k"] == "asg":
                l = unwrap(f, nd["c"][0])
                r = unwrap(f, nd["c"][1])
                if f.N[l]["k"] == "ref" and f.N[l].get("t") is not None and \
                        f.N[l]["t"].boolean and f.N[r]["k"] == "bool" and f.N[r]["v"]:
                    out.add(f.N[l]["d"])
        return out

    def fn(self, f):
        if (f.imp or f.dflt) and (f.fk in CTORS or f.n == "operator="):
            return {}, NONE       # memberwise: the memo is copied along
        ev = self.events(f)
        if not ev:
            return {}, NONE
        g = f.g
        bl = {b["i"]: b for b in g["bl"]}
        flags = {}
        for x, es in ev.items():
            if any(e[0] == "w" for e in es):
                flags[x] = self.flags_of(f, x)
        isctor = f.fk in CTORS
        E0 = frozenset([(("t",), ())]) if isctor else frozenset()
        # state: (E: paths whose memo is certainly empty, V: that or which have no elements
        # to modify, dirt: frozenset((o, x, flag)))
        # and the paths whose earlier staleness is certainly gone
        IN = {g["en"]: (E0, E0, frozenset(), frozenset(), frozenset())}
        OUT = {}
        work = [g["en"]]
        steps = 0
        self.why = {}
        while work:
            b = work.pop()
            steps += 1
            if steps > 4000:
                break
            st = IN[b]
            st = self.block(f, bl[b], st, ev, flags)
            if bl[b].get("nr") or any(isinstance(e, int) and f.N[e]["k"] == "throw"
                                      for e in bl[b]["e"]):
                continue
            succ = bl[b]["s"]
            for i, s in enumerate(succ):
                if s is None or s < 0:
                    continue
                st2 = self.edge(f, bl[b], i, st, flags)
                old = IN.get(s)
                if old is None:
                    new = st2
                else:
                    e = old[0] & st2[0]
                    new = (e, old[1] & st2[1], old[2] | st2[2], old[3] & st2[3],
                           ((old[0] | old[4]) & (st2[0] | st2[4])) - e)
                if new != old:
                    IN[s] = new
                    if s not in work:
                        work.append(s)
        ex = IN.get(g["ex"])
        if ex is None:
            return {}, NONE
        dirt = {}
        for o, x, fl in ex[2]:
            if isctor and o[0][0] == "t":
                continue
            if "…" in o[1]:
                continue          # which object is not known
            if o[0][0] == "v":
                q = o
                self.why[(o, x)] = 1
                dirt.setdefault(o, (f.u, x))
                continue
            q = self.AN(f).globalise(o, ret=True)
            if q is None:
                continue
            if q[0][0] == "p" and f.p[q[0][1]]["t"] is not None and \
                    not f.p[q[0][1]]["t"].ref and not q[1]:
                continue
            dirt.setdefault(q, (f.u, x))
        if f.fk in ("copy=", "move=") and (("t",), ()) in ex[3]:
            dirt.pop((("t",), ()), None)     # the memo is taken along, or emptied
        rs = tuple(frozenset(o for o in z if o[0][0] in ("t", "p", "g", "c"))
                   for z in (ex[1], ex[3]))
        self.localdirt = getattr(self, "localdirt", {})
        loc = {o: s for o, s in dirt.items() if o[0][0] == "v"}
        self.localdirt[f.u] = loc
        for o in loc:
            del dirt[o]
        return dirt, rs

    def block(self, f, b, st, ev, flags):
        E, V, D, C, M = (set(z) for z in st)
        for e in b["e"]:
            if not isinstance(e, int):
                continue
            # plain (overwriting) assignment to a flag forgets what it recorded
            nd = f.N[e]
            if nd["k"] == "asg" and nd["o"] == "=":
                l = unwrap(f, nd["c"][0])
                if l >= 0 and f.N[l]["k"] == "ref" and f.N[l].get("t") is not None \
                        and f.N[l]["t"].boolean:
                    d = f.N[l]["d"]
                    r = unwrap(f, nd["c"][1])
                    istrue = r >= 0 and f.N[r]["k"] == "bool" and f.N[r]["v"]
                    mentions = any(f.N[y]["k"] == "ref" and f.N[y].get("d") is d
                                   for y in f.subtree(nd["c"][1]))
                    if istrue:      # this flag is now true as well
                        D = {(o, x, fl | {d}) for o, x, fl in D}
                    if not istrue and not mentions:
                        sub = set(f.subtree(e))
                        D = {(o, x, (fl if x in sub else (fl - {d}))) for o, x, fl in D}
            for kind, o, why in ev.get(e, ()):
                if kind == "w":
                    if o in E:
                        continue
                    if o in M:
                        M.discard(o)
                        continue
                    D.add((o, e, frozenset(flags.get(e, ()))))
                elif kind == "out":
                    if o in V:
                        continue
                    D.add((o, e, frozenset()))
                elif kind == "maint":
                    D = {t for t in D if t[0] != o}
                    M.add(o)
                elif kind == "kill":
                    D = {t for t in D if t[0] != o}
                    C.add(o)
                elif kind == "reset":
                    D = {t for t in D if t[0] != o}
                    E.add(o)
                    V.add(o)
                    C.add(o)
                elif kind == "fill":
                    D = {t for t in D if t[0] != o}
                    E.discard(o)
                    V.discard(o)
                    M.discard(o)
                    C.add(o)
                elif kind == "new":
                    D = {t for t in D if not (t[0][0] == o[0] and t[0][1][:len(o[1])] == o[1])}
                    E.add(o)
                    V.add(o)
                    C.add(o)
                elif kind == "assign":
                    srcs = why
                    n = len(o[1])
                    moved = {(effects.ext(o, *t[0][1][len(z[1]):]), t[1], t[2])
                             for z in srcs for t in D
                             if t[0][0] == z[0] and t[0][1][:len(z[1])] == z[1]}
                    D = {t for t in D
                         if not (t[0][0] == o[0] and t[0][1][:n] == o[1])} | moved
                    C.add(o)
                    for S in (E, V, M):
                        S -= {t for t in S if t[0] == o[0] and t[1][:n] == o[1]}
                    if srcs and all(z in E for z in srcs):
                        E.add(o)
                        V.add(o)
                elif kind == "hash":
                    # hashing o also hashes what o contains
                    E = {t for t in E if not (t[0] == o[0] and
                                              t[1][:len(o[1])] == o[1])}
                    V = {t for t in V if not (t[0] == o[0] and
                                              t[1][:len(o[1])] == o[1])}
                    M = {t for t in M if not (t[0] == o[0] and
                                              t[1][:len(o[1])] == o[1])}
        return tuple(frozenset(z) for z in (E, V, D, C, M))

    def edge(self, f, b, i, st, flags):
        t = b.get("tc")
        if t is None or t < 0 or len([s for s in b["s"]]) != 2:
            return st
        pos = i == 0
        c = unwrap(f, t)
        while f.N[c]["k"] == "un" and f.N[c]["o"] == "!":
            c = unwrap(f, f.N[c]["c"][0])
            pos = not pos
        E, V, D, C, M = st
        nd = f.N[c]
        # a test of the memo itself
        m, mt = self.memotest(f, c)
        if m is not None and mt != pos:
            a = self.AN(f)
            os = objpaths(a, f, f.N[m]["c"][0], f.N[m].get("ar"))
            if len(os) == 1:
                E = E | os
                V = V | os
                C = C | os
                D = frozenset(t for t in D if t[0] not in os)
        if not pos:
            if nd["k"] == "ref":
                d = nd["d"]
                D = frozenset(x for x in D if d not in x[2])
            sub = set(f.subtree(c))
            D = frozenset(x for x in D if not (x[1] in sub and any(isinstance(z, tuple) for z in x[2])))
        # emptiness of a source
        a = self.AN(f)
        emp = None
        if nd["k"] == "call" and nd.get("d") is not None and nd["c"]:
            if nd["d"].n == "empty":
                emp = pos
                ob = nd["c"][0]
        elif nd["k"] == "bin" and nd["o"] in ("!=", "==", ">"):
            l, r = (unwrap(f, z) for z in nd["c"])
            if f.N[r]["k"] == "int" and str(f.N[r]["v"]) == "0" and f.N[l]["k"] == "call" \
                    and f.N[l].get("d") is not None and f.N[l]["d"].n == "size" and f.N[l]["c"]:
                emp = pos if nd["o"] == "==" else not pos
                ob = f.N[l]["c"][0]
        if emp:
            for kd, p in a.ev(ob):
                for q in a.norm(p):
                    for o in self.splits(q, 9):
                        V = V | {o}
        return E, V, D, C, M

    def memotest(self, f, c):
        """(memo member node, does a true condition mean it is filled)"""
        nd = f.N[c]
        k = nd["k"]
        if k == "mem":
            if nd.get("d") is not None and nd["d"].k == "field" and \
                    fkey(nd["d"]) in self.S.memos:
                return c, True
        elif k == "call" and nd.get("d") is not None and nd["c"] and \
                (nd["d"].n in ("has_value",) or nd["d"].n.startswith("operator bool")):
            m, t = self.memotest(f, unwrap(f, nd["c"][0]))
            return m, t
        elif (k == "bin" and nd["o"] in ("==", "!=")) or \
                (k == "call" and nd.get("d") is not None and
                 nd["d"].n in ("operator==", "operator!=") and len(nd["c"]) == 2):
            l, r = (unwrap(f, z) for z in nd["c"])
            if l < 0 or r < 0:
                return None, None
            eq = (nd["o"] if k == "bin" else nd["d"].n[8:]) == "=="
            for p, q in ((l, r), (r, l)):
                m, t = self.memotest(f, p)
                if m is None:
                    continue
                v = f.N[q]
                if v["k"] == "null" or (v["k"] == "ref" and v.get("d") is not None and
                                        v["d"].n == "nullopt"):
                    return m, not eq
                if v["k"] == "bool":
                    return m, eq == bool(v["v"])
        return None, None
