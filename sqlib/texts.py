"""Evaluation of small total functions from the source: given values for some
parameters, which values can the function return?  Follows the CFG, deciding every
branch that depends on known values only and taking both sides of the others."""
from . import flow, memo


class Giveup(Exception):
    pass


PASS = {"move", "forward", "as_const", "to_basic_string_view", "to_underlying", "static_pointer_cast", "c_str", "data", "str", "view",
        "to_wstring", "to_string", "basic_string", "basic_string_view", "wstring", "string"}
MAXPATHS = 600


class Texts:
    def __init__(self, P, enums):
        self.P, self.E = P, enums
        self.depth = 0
        self._gv = {}
        self._dirty = {}

    # ------------------------------------------------------------ functions
    def run(self, f, env, keys=None):
        """env: decl id -> value; keys: structural key -> value (members, getters)
        -> set of ('ret', value or None) / ('err',) / ('end', text written to a stream)"""
        if f.g is None:
            return {("ret", None)}
        bl = flow.blocks(f)
        out = set()
        self.depth += 1
        if self.depth > 5:
            self.depth -= 1
            return {("ret", None)}
        try:
            st = [(f.g["en"], dict(env), "", {})]
            n = 0
            while st:
                i, e, w, seen = st.pop()
                n += 1
                if n > MAXPATHS:
                    return {("ret", None)}
                if seen.get(i, 0) > 2:
                    out.add(("ret", None))
                    continue
                seen = dict(seen)
                seen[i] = seen.get(i, 0) + 1
                b = bl[i]
                e = dict(e)
                done = False
                for x in b["e"]:
                    if not isinstance(x, int):
                        continue
                    nd = f.N[x]
                    if nd["k"] == "throw":
                        out.add(("err",))
                        done = True
                        break
                    if nd["k"] == "ret":
                        c = [y for y in nd.get("c", ()) if y is not None and y >= 0]
                        v = self.ev(f, c[0], e, keys) if c else None
                        out.add(("end", w) if f.t is not None and "ostream" in f.t.s else ("ret", v))
                        done = True
                        break
                    w = self.step(f, x, e, w, keys)
                if done:
                    continue
                if b.get("nr"):
                    out.add(("err",))
                    continue
                if i == f.g["ex"]:
                    out.add(("end", w))
                    continue
                for s in self.next(f, b, bl, e, keys):
                    if s is not None and s in bl:
                        st.append((s, e, w, seen))
        finally:
            self.depth -= 1
        return out

    def next(self, f, b, bl, e, keys):
        t = b.get("t")
        if t is not None and t >= 0 and f.N[t]["k"] == "switch" and b.get("tc") is not None:
            v = self.ev(f, b["tc"], e, keys)
            if v is None:
                return b["s"]
            other = []
            for s in b["s"]:
                lb = bl[s].get("lb") if s in bl else None
                if lb is not None and lb >= 0 and f.N[lb]["k"] == "case":
                    cv = self.ev(f, f.N[lb]["c"][0], e, keys)
                    if cv is not None and self.eq(cv, v):
                        return [s]
                    if cv is None:
                        return b["s"]
                else:
                    other.append(s)
            return other
        a = flow.atoms(f, b)
        if a is None:
            return b["s"]
        v = self.ev(f, a[0], e, keys)
        if v is None or v[0] not in ("b", "i"):
            return b["s"]
        t = bool(v[1]) != a[1]
        return [b["s"][0 if t else 1]]

    def eq(self, a, b):
        if a[0] in ("i", "c", "b") and b[0] in ("i", "c", "b"):
            return int(a[1]) == int(b[1])
        if "e" in (a[0], b[0]) and (a[0] in "ic" or b[0] in "ic"):
            x = int(a[2]) if a[0] == "e" else int(a[1])
            y = int(b[2]) if b[0] == "e" else int(b[1])
            return x == y
        if {a[0], b[0]} == {"s", "c"}:
            return self.text(a) == self.text(b)
        return a == b

    def text(self, v):
        if v is None:
            return None
        if v[0] == "s":
            return v[1]
        if v[0] == "c":
            return chr(v[1])
        return None

    # ----------------------------------------------------------- statements
    def step(self, f, x, e, w, keys):
        nd = f.N[x]
        k = nd["k"]
        c = [y for y in nd.get("c", ()) if y is not None and y >= 0]
        if k == "var" and nd.get("d") is not None:
            e[nd["d"].id] = self.ev(f, c[-1], e, keys) if c else None
        elif k == "decl":
            for y in c:
                w = self.step(f, y, e, w, keys)
        elif k == "asg" or k == "call" and nd.get("o") in ("=", "+="):
            d = self.root(f, c[0])
            if d is not None:
                r = self.ev(f, c[-1], e, keys)
                if nd.get("o") == "+=":
                    a, b2 = self.text(e.get(d.id)), self.text(r)
                    e[d.id] = ("s", a + b2) if a is not None and b2 is not None else None
                elif nd.get("o") in (None, "="):
                    e[d.id] = r
                else:
                    e[d.id] = None
            else:                                   # an element, or something reached through the variable
                d = self.deep(f, c[0])
                if d is not None and d.id in e:
                    t = self.text(e[d.id])
                    l = f.N[memo.unwrap(f, c[0])]
                    i = self.ev(f, l["c"][-1], e, keys) if l["k"] in ("call", "idx") and len(l.get("c", ())) == 2 else None
                    r = self.text(self.ev(f, c[-1], e, keys)) if nd.get("o") in (None, "=") else None
                    if t is not None and r is not None and len(r) == 1 and i is not None and i[0] == "i" and \
                            0 <= i[1] < len(t) and "\u27e8" not in t:
                        e[d.id] = ("s", t[:i[1]] + r + t[i[1] + 1:])
                    else:
                        e[d.id] = None
        elif k == "call" and nd.get("o") == "<<" and len(c) == 2:
            t = self.text(self.ev(f, c[1], e, keys))
            w = None if w is None or t is None else w + t
        elif k == "call" and nd.get("d") is not None and nd["d"].n in ("push_back", "append") and len(c) == 2:
            d = self.root(f, c[0])
            if d is not None:
                a, b2 = self.text(e.get(d.id)), self.text(self.ev(f, c[1], e, keys))
                e[d.id] = ("s", a + b2) if a is not None and b2 is not None else None
        elif k == "un" and nd.get("o") in ("++", "--", "post++", "post--"):
            d = self.root(f, c[0])
            if d is not None:
                e[d.id] = None
        elif k == "call":
            if nd.get("m") and nd.get("d") is not None and not nd["d"].co and c and \
                    nd["d"].n not in ("back", "front", "at", "operator[]", "operator*", "operator->", "size", "find"):
                d = self.deep(f, c[0])
                if d is not None and d.k == "var" and d.id in e:
                    e[d.id] = None
            for i, y in enumerate(c):          # handed over where it can be changed
                yd = self.root(f, y)
                p = nd["d"].p[i - (1 if nd.get("m") else 0)] if nd.get("d") is not None and nd["d"].p and \
                    0 <= i - (1 if nd.get("m") else 0) < len(nd["d"].p) else None
                if yd is not None and p is not None and getattr(p, "lref", False) and not p.const and \
                        (nd.get("d") is None or nd["d"].n not in PASS):
                    if isinstance(e.get(yd.id), tuple) and yd.k == "var":
                        e[yd.id] = None
        return w

    def root(self, f, n):
        n = memo.unwrap(f, n)
        if n is None or n < 0:
            return None
        nd = f.N[n]
        return nd.get("d") if nd["k"] == "ref" else None

    def dirty(self, f):
        """local variables changed through references: not followed"""
        if f.u in self._dirty:
            return self._dirty[f.u]
        out = set()
        self._dirty[f.u] = out
        for n in f.walk():
            nd = f.N[n]
            c = [y for y in nd.get("c", ()) if y is not None and y >= 0]
            src = None
            if nd["k"] == "rfor" and len(c) > 1:
                v = f.N[c[0]].get("d")
                if v is not None and v.t is not None and "&" in v.t.s and not v.t.const:
                    src = c[1]
            elif nd["k"] == "var" and nd.get("d") is not None and nd["d"].t is not None and c and \
                    ("&" in nd["d"].t.s or "*" in nd["d"].t.s) and not nd["d"].t.const:
                src = c[-1]
            if src is not None:
                d = self.deep(f, src)
                if d is not None and d.k == "var" and d.sc == "local":
                    out.add(d.id)
        return out

    def deep(self, f, n):
        """the variable an lvalue is part of"""
        for _ in range(12):
            n = memo.unwrap(f, n)
            if n is None or n < 0:
                return None
            nd = f.N[n]
            if nd["k"] == "ref":
                return nd.get("d")
            c = [y for y in nd.get("c", ()) if y is not None and y >= 0]
            if nd["k"] in ("mem", "idx", "un", "call") and c:
                n = c[0]
                continue
            return None
        return None

    # ---------------------------------------------------------- expressions
    def ev(self, f, n, e, keys, d=0):
        if n is None or n < 0 or d > 40:
            return None
        nd = f.N[n]
        k = nd["k"]
        c = [y for y in nd.get("c", ()) if y is not None and y >= 0]
        v = self.E.value(f, n)
        if v is not None:
            return ("e",) + v
        if keys:
            from checks import c17_dispatch
            key = c17_dispatch.skey(f, n)
            if key is not None and key in keys:
                return keys[key]
        if k == "str":
            return ("s", unesc(nd.get("v", "")))
        if k == "chr":
            return ("c", int(nd["v"]))
        if k == "int":
            try:
                return ("i", int(str(nd["v"])))
            except ValueError:
                return None
        if k == "bool":
            return ("b", bool(nd["v"]))
        if k == "ref":
            dd = nd.get("d")
            if dd is None:
                return None
            if dd.id in self.dirty(f):
                return None
            if dd.id in e:
                return e[dd.id]
            return self.constant(f, dd)
        if k in ("cast", "paren") and c:
            r = self.ev(f, c[0], e, keys, d + 1)
            if r is not None and r[0] in ("i", "c") and nd.get("t") is not None and nd["t"].enum:
                q = self.E.of_type(nd["t"])
                return ("e", q, str(r[1])) if q else None
            return r
        if k == "cond" and len(c) == 3:
            b = self.ev(f, c[0], e, keys, d + 1)
            if b is None or b[0] not in ("b", "i"):
                x, y = self.ev(f, c[1], e, keys, d + 1), self.ev(f, c[2], e, keys, d + 1)
                return x if x == y else None
            return self.ev(f, c[1] if b[1] else c[2], e, keys, d + 1)
        if k == "rew" and len(c) == 1:
            return self.ev(f, c[0], e, keys, d + 1)
        o = nd.get("o")
        if k in ("bin", "call") and o in ("==", "!=") and len(c) == 2:
            a, b = self.ev(f, c[0], e, keys, d + 1), self.ev(f, c[1], e, keys, d + 1)
            if a is None or b is None:
                return None
            return ("b", self.eq(a, b) == (o == "=="))
        if k == "bin" and o in ("&&", "||") and len(c) == 2:
            a, b = self.ev(f, c[0], e, keys, d + 1), self.ev(f, c[1], e, keys, d + 1)
            for x in (a, b):
                if x is not None and x[0] in ("b", "i") and bool(x[1]) == (o == "||"):
                    return ("b", o == "||")
            return a if a is not None and b is not None else None
        if k == "un" and o == "!" and c:
            a = self.ev(f, c[0], e, keys, d + 1)
            return ("b", not a[1]) if a is not None and a[0] in ("b", "i") else None
        if k == "bin" and o in ("<", ">", "<=", ">=", "+", "-") and len(c) == 2:
            a, b = self.ev(f, c[0], e, keys, d + 1), self.ev(f, c[1], e, keys, d + 1)
            if a is None or b is None or a[0] not in "ice" or b[0] not in "ice":
                return None
            x, y = int(a[-1]), int(b[-1])
            if o in "+-":
                return ("i", x + y if o == "+" else x - y)
            return ("b", {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[o])
        if k == "call" and o == "+" and len(c) == 2:
            a, b = self.text(self.ev(f, c[0], e, keys, d + 1)), self.text(self.ev(f, c[1], e, keys, d + 1))
            return ("s", a + b) if a is not None and b is not None else None
        if k == "ctor":
            args = [y for y in c if f.N[y]["k"] != "defarg"]
            if len(args) == 1:
                return self.ev(f, args[0], e, keys, d + 1)
            if len(args) == 2:       # string(n, c)
                a, b = self.ev(f, args[0], e, keys, d + 1), self.ev(f, args[1], e, keys, d + 1)
                if a is not None and b is not None and a[0] == "i" and b[0] == "c" and 0 <= a[1] < 9:
                    return ("s", chr(b[1]) * a[1])
            if not args and nd.get("t") is not None and "basic_string" in nd["t"].s:
                return ("s", "")
            return None
        if k == "ilist" and len(c) == 1:
            return self.ev(f, c[0], e, keys, d + 1)
        if k == "idx" and len(c) == 2:
            return self.lookup(f, c[0], self.ev(f, c[1], e, keys, d + 1), e, keys, d)
        if k == "un" and o in ("*", "&") and c:
            return self.ev(f, c[0], e, keys, d + 1)
        if k == "mem" and nd.get("d") is not None and nd["d"].n == "second" and c:     # m.find(k)->second
            for y in f.subtree(c[0]):
                z = f.N[y]
                if z["k"] == "call" and z.get("d") is not None and z["d"].n == "find" and len(z["c"]) == 2:
                    return self.lookup(f, z["c"][0], self.ev(f, z["c"][1], e, keys, d + 1), e, keys, d)
            return None
        if k == "call" and nd.get("d") is not None:
            nm = nd["d"].n
            if nd["d"].k == "conv" and len(c) == 1:
                return self.ev(f, c[0], e, keys, d + 1)
            tg = self.P.targets(f, nd)
            if nm in ("at", "operator[]") and len(c) == 2:
                r = self.lookup(f, c[0], self.ev(f, c[1], e, keys, d + 1), e, keys, d)
                if r is not None:
                    return r
            if nm in ("toupper", "tolower", "towupper", "towlower") and c:
                a = self.ev(f, c[0], e, keys, d + 1)
                if a is not None and a[0] in ("c", "i") and a[1] < 128:
                    s = chr(a[1])
                    return ("c", ord(s.upper() if "upper" in nm else s.lower()))
                return None
            if nm in ("front", "back") and c:
                t = self.text(self.ev(f, c[0], e, keys, d + 1))
                return ("c", ord(t[0 if nm == "front" else -1])) if t and "\u27e8" not in t else None
            if nm in ("size", "length") and c:
                t = self.text(self.ev(f, c[0], e, keys, d + 1))
                return ("i", len(t)) if t is not None and "\u27e8" not in t else None
            if nm == "empty" and c:
                t = self.text(self.ev(f, c[0], e, keys, d + 1))
                return ("b", not t) if t is not None and "\u27e8" not in t else None
            if len(tg) == 1 and not nd["d"].vi:
                g = tg[0]
                args = c[1:] if (nd.get("m") or (nd.get("o") == "()" and g.lam)) else c
                en = {}
                for p, a in zip(g.p, args):
                    en[p["d"].id] = self.ev(f, a, e, keys, d + 1)
                k2 = keys if nd.get("m") and f.N[memo.unwrap(f, c[0])]["k"] == "this" else None
                if g.lam:
                    en = {**e, **en}
                if any(v is not None for v in en.values()) or k2 or not g.p:
                    r = self.run(g, en, k2)
                    r = {x for x in r if x[0] != "err"} or r
                    if len(r) == 1:
                        x = next(iter(r))
                        if x[0] == "ret":
                            return x[1]
            if nm.startswith('operator""') and c:
                return self.ev(f, c[0], e, keys, d + 1)
            if nm in PASS and c:
                return self.ev(f, c[0] if nd.get("m") or len(c) == 1 else c[-1], e, keys, d + 1)
        if k == "call" and nd.get("d") is None and len(c) == 1:
            return None
        return None

    # --------------------------------------------------------------- tables
    def initof(self, f, dd):
        """the initialiser of a local static, a global or a member constant: (function, node)"""
        for n in f.walk():
            nd = f.N[n]
            if nd["k"] == "var" and nd.get("d") is dd:
                c = [y for y in nd.get("c", ()) if y is not None and y >= 0]
                return (f, c[-1]) if c else None
        if not self._gv:
            for g in self.P.fns.values():
                for n in g.walk():
                    nd = g.N[n]
                    if nd["k"] == "var" and nd.get("d") is not None:
                        c = [y for y in nd.get("c", ()) if y is not None and y >= 0]
                        if c:
                            self._gv.setdefault(nd["d"].id, (g, c[-1]))
            self._gv.setdefault(0, None)
        return self._gv.get(dd.id)

    def constant(self, f, dd):
        if dd.k != "var" or not (dd.co or (dd.t is not None and dd.t.const) or dd.cx):
            return None
        i = self.initof(f, dd)
        return self.ev(i[0], i[1], {}, None) if i is not None else None

    def table(self, f, n, e):
        """(function, [element nodes]) of a container written out in full"""
        n = memo.unwrap(f, n)
        nd = f.N[n]
        if nd["k"] == "call" and nd.get("d") is not None:
            tg = self.P.targets(f, nd)
            if len(tg) == 1:
                g = tg[0]
                for x in g.walk():
                    if g.N[x]["k"] == "ret" and g.N[x].get("c"):
                        return self.table(g, g.N[x]["c"][0], {})
            return None
        if nd["k"] == "ref" and nd.get("d") is not None:
            i = self.initof(f, nd["d"])
            if i is None:
                return None
            f, n = i
        best = None
        for x in f.subtree(n):
            if f.N[x]["k"] == "ilist":
                c = [y for y in f.N[x].get("c", ()) if y is not None and y >= 0]
                if best is None or len(best) < 2 <= len(c):
                    best = c
        return (f, best) if best else None

    def lookup(self, f, obj, key, e, keys, d):
        if key is None:
            return None
        t = self.table(f, obj, e)
        if t is None:
            return None
        g, el = t
        pairs = []
        for x in el:
            y = x
            for _ in range(6):
                c = [z for z in g.N[y].get("c", ()) if z is not None and z >= 0 and g.N[z]["k"] != "defarg"]
                if g.N[y]["k"] in ("ctor", "ilist", "cast") and len(c) == 1:
                    y = c[0]
                    continue
                break
            c = [z for z in g.N[y].get("c", ()) if z is not None and z >= 0 and g.N[z]["k"] != "defarg"]
            pairs.append((y, c if g.N[y]["k"] in ("ctor", "ilist") and len(c) == 2 else None))
        if all(p[1] for p in pairs) and pairs:
            for y, c in pairs:
                kv = self.ev(g, c[0], {}, None, d + 1)
                if kv is not None and self.eq(kv, key):
                    return self.ev(g, c[1], {}, None, d + 1)
            return None
        i = int(key[-1]) if key[0] in "ie" else None
        if i is not None and 0 <= i < len(el):
            return self.ev(g, el[i], {}, None, d + 1)
        return None


def unesc(s):
    if "\\" not in s:
        return s
    try:
        out = s.encode("latin-1", "backslashreplace").decode("unicode_escape")
        return out
    except (UnicodeDecodeError, UnicodeEncodeError):
        return s
