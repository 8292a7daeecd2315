"""C17: every enumerator of a dispatched-on enumeration is handled explicitly or leads to an error."""
from sqlib import facts, flow, memo, selftest
from sqlib.report import Report

TECHNIQUE = ("path-sensitive dataflow over the CFG tracking, for every enumeration-typed value a function tests, the set of enumerators still "
             "possible; residual edges (default labels, the way past a switch, the last else) are checked for how many enumerators they "
             "swallow and whether every path from them ends in an error; fall-through between case bodies; paths off the end of "
             "value-returning functions")
NOTE = ("A dispatch of a single test (`if (x == E::A) ... else ...`) is a two-way question, not a case distinction, and is not judged. "
        "Branches discarded by `if constexpr` in an instantiation are not seen for that instantiation. What each case then does is judged "
        "by the other checks.")
RULE = ("An enumerator that the sibling switches of one file reject as an error is not given the treatment of a supported one by another of "
        "them. A switch over an enumeration has a case for every enumerator, or the enumerators without one all take a default that ends in an "
        "error on every path, or exactly one enumerator is left to an explicit default. A chain of comparisons of one value against two or "
        "more enumerators with different treatment leaves at most one enumerator to its final else, unless that else ends in an error. No "
        "case with statements of its own runs on into the next case. No path of a value-returning function ends without a value.")


class Enums:
    def __init__(self, P):
        self.P = P
        self.val = {}     # qualified enumerator -> value
        self.all = {}     # enum q -> {value: name}
        self.names = {}
        for q, e in P.enums.items():
            t = {}
            for name, v in e["e"]:
                t.setdefault(v, name)
            self.all[q] = t
            self.names[q] = [x[0] for x in e["e"]]

    def of_type(self, t):
        if t is None:
            return None
        s = t.s.replace("const ", "").replace("&", "").strip()
        return s if s in self.all else None

    def value(self, f, n):
        """(enum q, value) if n is an enumerator"""
        n = skip(f, n)
        if n is None or n < 0:
            return None
        nd = f.N[n]
        d = nd.get("d")
        if nd["k"] == "ref" and d is not None and d.k == "enumc":
            q = self.of_type(nd.get("t"))
            if q is None:
                return None
            nm = (d.q or d.n or "").rsplit("::", 1)[-1]
            for name, v in self.P.enums[q]["e"]:
                if name == nm:
                    return q, v
        return None


def skip(f, n):
    while n is not None and n >= 0:
        nd = f.N[n]
        if nd["k"] in ("cast", "paren") and nd.get("c"):
            n = nd["c"][0]
        elif nd["k"] == "ctor" and nd.get("c") and len([x for x in nd["c"] if x >= 0]) == 1 and nd.get("t") is not None and nd["t"].enum:
            n = nd["c"][0]
        elif nd["k"] == "call" and nd.get("d") is not None and (getattr(nd["d"], "q", "") or "").endswith(("to_underlying", "to_integral")):
            n = nd["c"][-1]
        else:
            return n
    return n


def skey(f, n):
    """a name for the value tested; None when it is not something that can be tested again"""
    n = skip(f, n)
    if n is None or n < 0:
        return None
    nd = f.N[n]
    d = nd.get("d")
    k = nd["k"]
    if k == "this":
        return ("this",)
    if k == "ref" and d is not None:
        return ("v", d.id, d.n)
    if k == "mem" and d is not None and nd.get("c"):
        o = skey(f, nd["c"][0])
        return None if o is None else ("m", d.n, o)
    if k == "un" and nd.get("o") in ("*", "&") and nd.get("c"):
        o = skey(f, nd["c"][0])
        return None if o is None else ("u", o)
    if k == "call" and d is not None and nd.get("m") and len([x for x in nd["c"] if x >= 0]) == 1:
        o = skey(f, nd["c"][0])
        return None if o is None else ("c", d.n, o)
    if k == "call" and d is not None and nd.get("o") in ("->", "*") and nd.get("c"):
        o = skey(f, nd["c"][0])
        return None if o is None else ("u", o)
    if k == "call" and d is not None and not nd.get("m") and len([x for x in nd["c"] if x >= 0]) <= 1 and not nd.get("o"):
        if not [x for x in nd["c"] if x >= 0]:
            return ("f", d.n)
        o = skey(f, [x for x in nd["c"] if x >= 0][0])
        return None if o is None else ("f", d.n, o)
    return None


def roots(key):
    out = []
    while isinstance(key, tuple):
        if key[0] == "v":
            out.append(key[1])
        key = key[-1] if isinstance(key[-1], tuple) else None
    return out


class Values:
    """the enumerators a value can be, from what the library stores and passes (None: any)"""

    def __init__(self, P, E):
        self.P, self.E = P, E
        self._calls = None
        self._stores = None
        self._memo = {}

    def calls(self, g):
        if self._calls is None:
            self._calls = {}
            for f in self.P.fns.values():
                for n in f.walk():
                    nd = f.N[n]
                    if nd["k"] in ("call", "ctor"):
                        for t in self.P.targets(f, nd):
                            if any(self.E.of_type(p["d"].t) for p in t.p if p.get("d") is not None):
                                self._calls.setdefault(t.u, []).append((f, n))
        return self._calls.get(g.u, [])

    def stores(self, d):
        if self._stores is None:
            self._stores = {}
            for f in self.P.fns.values():
                if f.imp or f.fk in ("copy", "move", "copy=", "move="):
                    continue
                for i in f.inits:
                    if i.get("d") is not None and i.get("e", -1) is not None and i.get("e", -1) >= 0 and self.E.of_type(i["d"].t):
                        self._stores.setdefault(i["d"].id, []).append((f, i["e"]))
                for n in f.walk():
                    nd = f.N[n]
                    if nd["k"] == "asg" and nd.get("c") and len(nd["c"]) == 2:
                        t = skip(f, nd["c"][0])
                        d2 = f.N[t].get("d") if t is not None and t >= 0 else None
                        if d2 is not None and self.E.of_type(d2.t):
                            self._stores.setdefault(d2.id, []).append((f, nd["c"][1]))
        return self._stores.get(d.id, [])

    def of(self, f, n, depth=0):
        n = skip(f, n)
        if n is None or n < 0 or depth > 6:
            return None
        key = (f.u, n)
        if key in self._memo:
            return self._memo[key]
        self._memo[key] = None
        r = self._of(f, n, depth)
        self._memo[key] = r
        return r

    def _of(self, f, n, depth):
        nd = f.N[n]
        v = self.E.value(f, n)
        if v is not None:
            return frozenset([v[1]])
        d = nd.get("d")
        if nd["k"] == "cond" and len(nd["c"]) == 3:
            return self.union([(f, nd["c"][1]), (f, nd["c"][2])], depth)
        if nd["k"] == "ref" and d is not None and d.k == "parm":
            return self.param(f, d, depth)
        if nd["k"] == "ref" and d is not None and d.k == "var":
            ini = [(f, [c for c in f.N[x]["c"] if c >= 0][-1]) for x in f.walk()
                   if f.N[x]["k"] == "var" and f.N[x].get("d") is d and [c for c in f.N[x].get("c", []) if c >= 0]]
            for x in f.walk():
                y = f.N[x]
                if y["k"] == "rfor" and f.N[y["c"][0]].get("d") is d:
                    r = skip(f, y["c"][1])
                    while f.N[r]["k"] in ("ctor", "mat") and len([c for c in f.N[r].get("c", []) if c >= 0]) == 1:
                        r = skip(f, [c for c in f.N[r]["c"] if c >= 0][0])
                    if f.N[r]["k"] == "ref" and f.N[r].get("d") is not None:
                        rd = f.N[r]["d"]
                        for z in f.walk():
                            if f.N[z]["k"] == "var" and f.N[z].get("d") is rd and f.N[z].get("c"):
                                r = skip(f, f.N[z]["c"][-1])
                    if f.N[r]["k"] != "ilist":
                        r = next((z for z in f.subtree(r) if f.N[z]["k"] == "ilist" and
                                  all(self.of(f, c, depth + 1) for c in f.N[z].get("c", []))), r)
                    if f.N[r]["k"] == "ilist" and f.N[r].get("c"):
                        return self.union([(f, c) for c in f.N[r]["c"]], depth)
                    return None
            if len(ini) == 1 and not self.stores(d):
                return self.union(ini, depth)
            return None
        if nd["k"] == "mem" and d is not None and d.k == "field" and self.E.of_type(d.t):
            return self.union(self.stores(d), depth)
        if nd["k"] == "call" and d is not None:
            tg = self.P.targets(f, nd)
            if len(tg) == 1 and tg[0].g is not None and self.E.of_type(tg[0].t):
                g = tg[0]
                rs = [(g, g.N[x]["c"][0]) for x in g.walk() if g.N[x]["k"] == "ret" and g.N[x].get("c")]
                r = self.union(rs, depth)
                return r if r is not None else self.asserted(g, rs)
        return None

    def asserted(self, g, rs):
        """`SEQUANT_ASSERT(e != 0)` before `return static_cast<E>(e)`: the enumerator of value 0 is not returned"""
        q = self.E.of_type(g.t)
        if q is None or len(rs) != 1:
            return None
        e = skip(g, rs[0][1])
        for x in g.walk():
            nd = g.N[x]
            if nd.get("as") and nd["k"] == "bin" and nd.get("o") in ("!=", ">") and len(nd["c"]) == 2:
                z = skip(g, nd["c"][1])
                if g.N[z]["k"] == "int" and g.N[z].get("v") == "0" and same(g, skip(g, nd["c"][0]), e):
                    return frozenset(v for v in self.E.all[q] if v != "0")
        return None

    def param(self, f, d, depth):
        i = [k for k, p in enumerate(f.p) if p.get("d") is d]
        cs = self.calls(f)
        if not i or not cs or not (f.lam or f.fk in ("ctor",)):
            return None
        i = i[0]
        out = []
        for g, n in cs:
            nd = g.N[n]
            args = list(nd["c"])
            if nd["k"] == "call" and (nd.get("m") or nd.get("o") == "()"):
                args = args[1:]
            if i >= len(args):
                return None
            out.append((g, args[i]))
        return self.union(out, depth)

    def union(self, xs, depth):
        out = frozenset()
        for f, n in xs:
            v = self.of(f, n, depth + 1)
            if v is None:
                return None
            out |= v
        return out or None


def same(f, a, b):
    a, b = skip(f, a), skip(f, b)
    if a is None or b is None or a < 0 or b < 0:
        return a == b
    x, y = f.N[a], f.N[b]
    if x["k"] != y["k"] or x.get("o") != y.get("o") or x.get("d") is not y.get("d") or x.get("v") != y.get("v"):
        return False
    cx, cy = [c for c in x.get("c", []) if c >= 0], [c for c in y.get("c", []) if c >= 0]
    return len(cx) == len(cy) and all(same(f, p, q) for p, q in zip(cx, cy))


class Dispatch:
    def __init__(self, P, E, f, V=None):
        self.P, self.E, self.f, self.V = P, E, f, V
        self.poss = {}       # key -> enumerators the value can have at all
        self.bool_defs = {}
        self.tests = {}      # block -> (key, enum, value, eq)  or ("switch", ...)
        self._collect()

    def _collect(self):
        f = self.f
        cnt = {}
        for n in f.walk():
            nd = f.N[n]
            if nd["k"] == "var" and nd.get("d") is not None and nd.get("c") and nd["d"].t is not None and nd["d"].t.boolean \
                    and nd["d"].t.s.replace("const ", "") == "bool":
                self.bool_defs[nd["d"].id] = [c for c in nd["c"] if c >= 0][-1]
            if nd["k"] in ("asg",) and nd.get("c"):
                t = skip(f, nd["c"][0])
                d = f.N[t].get("d") if t is not None and t >= 0 else None
                if d is not None:
                    cnt[d.id] = 1
        for k in cnt:
            self.bool_defs.pop(k, None)
        for b in f.g["bl"]:
            t = self.test(b)
            if t:
                self.tests[b["i"]] = t

    def comparison(self, c, neg, depth=0):
        """(key, enum, {values}, truth) for x == E::A and x != E::A, also through a bool local"""
        f = self.f
        nd = f.N[c]
        o = nd.get("o")
        if nd["k"] in ("bin", "call", "rew") and o in ("==", "!=") or nd["k"] == "rew":
            cs = [x for x in nd.get("c", []) if x >= 0]
            if nd["k"] == "rew":
                return self.comparison(cs[0], neg, depth) if len(cs) == 1 else None
            if len(cs) != 2:
                return None
            for a, b in ((cs[0], cs[1]), (cs[1], cs[0])):
                v = self.E.value(f, b)
                if v is not None and self.E.value(f, a) is None:
                    k = skey(f, a)
                    if k is not None:
                        self.poss.setdefault(k, a)
                        return k, v[0], frozenset([v[1]]), (o == "==") != neg
            return None
        if nd["k"] == "ref" and nd.get("d") is not None and depth < 3 and nd["d"].id in self.bool_defs:
            e = self.bool_defs[nd["d"].id]
            e = skip(f, e)
            ng = neg
            while e is not None and e >= 0 and f.N[e]["k"] == "un" and f.N[e].get("o") == "!":
                ng = not ng
                e = skip(f, f.N[e]["c"][0])
            return self.comparison(e, ng, depth + 1) if e is not None and e >= 0 else None
        return None

    def test(self, b):
        f = self.f
        if b.get("t") is not None and b["t"] >= 0 and f.N[b["t"]]["k"] == "switch":
            tc = b.get("tc")
            if tc is None or tc < 0:
                return None
            n = skip(f, tc)
            q = self.E.of_type(f.N[n].get("t")) if n is not None and n >= 0 else None
            if q is None:
                return None
            k = skey(f, tc) or ("node", n)
            self.poss.setdefault(k, tc)
            return ("switch", k, q)
        a = flow.atoms(f, b)
        if a is None:
            return None
        c = self.comparison(a[0], a[1])
        return ("cmp",) + c if c else None

    def full(self, key, q):
        r = self.poss.get(key)
        if isinstance(r, int) and r is not True:
            v = self.V.of(self.f, r) if self.V is not None else None
            r = self.poss[key] = v if v is not None else frozenset(self.E.all[q])
        return r if r is not None else frozenset(self.E.all[q])

    # ------------------------------------------------------------ the dataflow
    def transfer(self, n, st, report):
        nd = self.f.N[n]
        if not st:
            return st
        d = None
        if nd["k"] == "asg" and nd.get("c"):
            t = skip(self.f, nd["c"][0])
            x = t
            while x is not None and x >= 0 and self.f.N[x]["k"] in ("mem", "un") and self.f.N[x].get("c"):
                if self.f.N[x]["k"] == "mem" and self.f.N[x].get("d") is not None and self.f.N[self.f.N[x]["c"][0]]["k"] == "this":
                    nm = self.f.N[x]["d"].n
                    st = {k: v for k, v in st.items() if not ("m", nm, ("this",)) in subs(k)}
                x = self.f.N[x]["c"][0]
            d = self.f.N[x].get("d") if x is not None and x >= 0 else None
        elif nd["k"] == "var":
            d = nd.get("d")
        elif nd["k"] == "decl":
            ds = [self.f.N[c].get("d") for c in nd.get("c", []) if c >= 0]
            for d in ds:
                if d is not None:
                    st = {k: v for k, v in st.items() if d.id not in roots(k)}
            return st
        elif nd["k"] == "un" and nd.get("o") in ("++", "--", "post++", "post--") or nd["k"] == "call" and nd.get("o") in ("++", "--", "="):
            cs = [c for c in nd.get("c", []) if c >= 0]
            x = skip(self.f, cs[0]) if cs else None
            d = self.f.N[x].get("d") if x is not None and x >= 0 else None
        if d is not None:
            st = {k: v for k, v in st.items() if d.id not in roots(k)}
        return st

    def edge(self, b, k, st):
        t = self.tests.get(b["i"])
        if t is None:
            return st
        f = self.f
        q = t[2]
        key = t[1]
        S, T = st[key] if key in st else (self.full(key, q), frozenset())
        if t[0] == "switch":
            tgt = b["s"][k]
            covered = set()
            val = None
            for s in b["s"]:
                lb = self.bl[s].get("lb") if s in self.bl else None
                if lb is not None and lb >= 0 and f.N[lb]["k"] == "case":
                    v = self.E.value(f, f.N[lb]["c"][0])
                    if v:
                        covered.add(v[1])
                        if s == tgt:
                            val = v[1]
            if val is not None:
                new = S & {val}
            else:
                new = S - covered
                T = T | frozenset(covered)
        else:
            _, key, q, vals, truth = t
            pos = (k == 0) == truth
            if pos:
                new = S & vals
            else:
                new = S - vals
                T = T | frozenset([b["s"][1 - k]])
        if not new:
            return None
        st = dict(st)
        st[key] = (new, T)
        return st

    def solve(self):
        self.bl = flow.blocks(self.f)
        self.pred = {}
        for b in self.f.g["bl"]:
            if b.get("nr") or self.thrown(b):
                continue
            for s in b["s"]:
                self.pred.setdefault(s, []).append(b["i"])

        def join(a, c):
            return {k: (a[k][0] | c[k][0], a[k][1] & c[k][1]) for k in a if k in c}

        def edge(b, k, st):
            if self.thrown(b):
                return None
            return self.edge(b, k, st)
        self.inn = flow.solve(self.f, {}, self.transfer, edge, join)

    def thrown(self, b):
        return any(isinstance(e, int) and self.f.N[e]["k"] == "throw" for e in b["e"])

    def errors(self, i):
        """every path from block i ends in a throw or a call that does not return"""
        seen, st = set(), [i]
        while st:
            x = st.pop()
            if x in seen or x not in self.bl:
                continue
            seen.add(x)
            b = self.bl[x]
            if b.get("nr") or self.thrown(b):
                continue
            if x == self.f.g["ex"]:
                return False
            st.extend(b["s"])
        return True

    def retested(self, i, key, S):
        """a further test of the same value is made with at most the enumerators S left"""
        seen, st = set(), [i]
        while st:
            x = st.pop()
            if x in seen or x not in self.inn:
                continue
            seen.add(x)
            cur = self.inn[x].get(key)
            if cur is None or not cur[0] <= S:
                continue
            if x in self.tests and self.tests[x][1] == key:
                return True
            st.extend(self.bl[x]["s"])
        return False

    def out(self, b):
        st = self.inn[b["i"]]
        for e in b["e"]:
            if isinstance(e, int):
                st = self.transfer(e, st, False)
        return st


def subs(k):
    out = []
    while isinstance(k, tuple):
        out.append(k)
        k = k[-1] if isinstance(k[-1], tuple) else None
    return out


def analyse(P):
    E = Enums(P)
    V = Values(P, E)
    sib = {}
    found = []
    cnt = {"functions analysed": 0, "switches over an enumeration": 0, "enumerators dispatched on by switches": 0,
           "comparison chains over an enumeration": 0, "enumerators rejected by a switch": 0, "case labels checked for fall-through": 0, "value-returning functions checked": 0}
    for f in P.fns.values():
        if f.g is None or f.imp:
            continue
        cnt["functions analysed"] += 1
        D = Dispatch(P, E, f, V)
        D.bl = flow.blocks(f)
        fall(P, f, D, found, cnt)
        ends(P, f, D, found, cnt)
        if not D.tests:
            continue
        D.solve()
        for i, t in D.tests.items():
            if i not in D.inn:
                continue
            b = D.bl[i]
            q = t[2]
            st = D.out(b)
            key = t[1]
            nm = E.all[q]
            if t[0] == "switch":
                cnt["switches over an enumeration"] += 1
                for k, s in enumerate(b["s"]):
                    if s not in D.bl:
                        continue
                    o = D.edge(b, k, st)
                    for v in (o[key][0] if o else ()):
                        sib.setdefault((f.f, q, v), {}).setdefault(memo.strip(f.q), []).append((f, tc(b), D.errors(s)))
                    lb = D.bl[s].get("lb")
                    if lb is not None and lb >= 0 and f.N[lb]["k"] == "case":
                        cnt["enumerators dispatched on by switches"] += 1
                        continue
                    o = D.edge(b, k, st)
                    if o is None or D.errors(s):
                        continue
                    R = o[key][0]
                    isdef = lb is not None and lb >= 0 and f.N[lb]["k"] == "default"
                    if not isdef:
                        found.append((f, tc(b), "switch:%s" % q, "the switch over %s has no case for %s and goes on without treating it" %
                                      (q, ", ".join(sorted(nm[v] for v in R)))))
                    elif len(R) > 1:
                        found.append((f, tc(b), "default:%s" % q, "the switch over %s leaves %s to a default that is not an error" %
                                      (q, ", ".join(sorted(nm[v] for v in R)))))
            else:
                neg = 1 if t[4] else 0
                s = b["s"][neg]
                if s not in D.bl:
                    continue
                o = D.edge(b, neg, st)
                if o is None:
                    continue
                R, T = o[key]
                if len(T) < 2:
                    continue
                if D.retested(s, key, R):
                    continue
                cnt["comparison chains over an enumeration"] += 1
                if len(R) > 1 and not D.errors(s):
                    found.append((f, tc(b), "chain:%s" % q, "after comparing with every other enumerator the rest of %s (%s) is treated alike, "
                                  "not as an error" % (q, ", ".join(sorted(nm[v] for v in R)))))
    for (file, q, v), fs in sib.items():
        rej = [k for k, xs in fs.items() if all(e for _, _, e in xs)]
        acc = [k for k in fs if k not in rej]
        if rej:
            cnt["enumerators rejected by a switch"] += 1
        if len(rej) >= 3 and acc and len(acc) * 2 <= len(rej):
            for k in acc:
                f, n, _ = next(x for x in fs[k] if not x[2])
                found.append((f, n, "sibling:%s:%s" % (q, E.all[q][v]), "treats %s of %s like a supported value, while %s reject it as an error" %
                              (E.all[q][v], q, ", ".join(sorted(rej)[:4]))))
    return found, cnt


def tc(b):
    return b.get("tc")


def reachable(f, D):
    seen, st = set(), [f.g["en"]]
    while st:
        x = st.pop()
        if x in seen or x not in D.bl:
            continue
        seen.add(x)
        b = D.bl[x]
        if not (b.get("nr") or D.thrown(b)):
            st.extend(b["s"])
    return seen


def fall(P, f, D, found, cnt):
    reach = None
    for b in f.g["bl"]:
        lb = b.get("lb")
        if lb is None or lb < 0 or f.N[lb]["k"] not in ("case", "default"):
            continue
        cnt["case labels checked for fall-through"] += 1
        if reach is None:
            reach = reachable(f, D)
        for p in f.g["bl"]:
            if p["i"] not in reach or b["i"] not in p["s"] or p.get("nr") or D.thrown(p):
                continue
            t = p.get("t")
            if t is not None and t >= 0 and f.N[t]["k"] == "switch":
                continue
            pl = p.get("lb")
            if pl is not None and pl >= 0 and f.N[pl]["k"] in ("case", "default") and not [e for e in p["e"]] and t in (None, -1):
                continue        # stacked labels
            if t is not None and t >= 0 and f.N[t]["k"] in ("break", "goto"):
                continue
            # [[fallthrough]]
            if any(isinstance(e, int) and f.N[e]["k"] == "nop" and f.N[e].get("ft") for e in p["e"]):
                continue
            if fallthrough_marked(f, lb):
                continue
            found.append((f, lb, "fall", "the case before this label runs on into it"))
            break


def fallthrough_marked(f, lb):
    """the statement before the label is [[fallthrough]] (kept as an attributed empty statement)"""
    par = f.par_map
    p = par.get(lb)
    if p is None or p < 0:
        return False
    cs = f.N[p].get("c", [])
    if lb not in cs:
        return False
    i = cs.index(lb)
    if i == 0:
        return False
    x = cs[i - 1]
    seen = set()
    while x is not None and x >= 0 and x not in seen:
        seen.add(x)
        nd = f.N[x]
        if nd["k"] == "nop" or nd["k"] == "x":
            return True
        if nd["k"] in ("block", "case", "default") and nd.get("c"):
            x = nd["c"][-1]
        else:
            return False
    return False


def ends(P, f, D, found, cnt):
    rt = f.t
    if rt is None or rt.s == "void" or f.fk in ("ctor", "copy", "move", "dtor") or f.n == "main":
        return
    if any(f.N[n]["k"] == "x" and "Coro" in str(f.N[n].get("n", "")) for n in f.walk()):
        return
    cnt["value-returning functions checked"] += 1
    ex = f.g["ex"]
    seen = reachable(f, D)
    for i in seen:
        b = D.bl[i]
        if ex not in b["s"] or b.get("nr") or D.thrown(b) or i == ex:
            continue
        if returns(f, D, i):
            continue
        found.append((f, None, "end", "a path reaches the end of the function without returning a value"))
        break


def returns(f, D, i):
    """a return statement is on the straight line before block i's exit edge (destructors may come after it)"""
    seen, st = set(), [i]
    preds = {}
    for b in f.g["bl"]:
        if b.get("nr") or D.thrown(b):
            continue
        for s in b["s"]:
            preds.setdefault(s, []).append(b["i"])
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if any(isinstance(e, int) and f.N[e]["k"] == "ret" for e in D.bl[x]["e"]):
            continue
        ps = preds.get(x, [])
        if x == f.g["en"]:
            return False
        st.extend(ps)
    return True


def run(pid):
    rep = Report(pid, RULE)
    S = selftest.program("dispatch")
    found, _ = analyse(S)
    hit = {p for f, n, k, t in found for p in memo.strip(f.q).replace("(", "::").split("::") if p.startswith(("bad", "good"))}
    names = {p for f in S.fns.values() for p in memo.strip(f.q).replace("(", "::").split("::") if p.startswith(("bad", "good"))}
    want = {n for n in names if n.startswith("bad")}
    good = {h for h in hit if h.startswith("good")}
    rep.selftest("planted defects are found: " + ", ".join(sorted(want)), len(want) > 8 and want <= hit or print("missed", want - hit))
    rep.selftest("correct variants are quiet", not good or print("noise", good))
    P = facts.load()
    found, cnt = analyse(P)
    for k, v in cnt.items():
        rep.count(k, v)
    rep.floor("functions analysed", 3000)
    rep.floor("switches over an enumeration", 40)
    rep.floor("enumerators dispatched on by switches", 150)
    rep.floor("comparison chains over an enumeration", 5)
    rep.floor("value-returning functions checked", 2000)
    for f, n, k, t in found:
        rep.find("%s|%s" % (memo.strip(f.q), k), f.loc(n) if n is not None else "%s:%s" % (f.f, f.l), "%s: %s" % (memo.strip(f.q), t))
    return rep.finish()
