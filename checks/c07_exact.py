"""C07: symbolic coefficients are exact."""
import re
from collections import Counter, defaultdict
from fractions import Fraction
from sqlib import facts, memo, selftest
from sqlib.report import Report

TECHNIQUE = ("interprocedural value-origin analysis: every place where a built-in number enters exact arithmetic (construction, conversion, "
             "operators, forwarding functions, found by a fixpoint over parameters) is traced back to the expressions that produce the value")
NOTE = ("Sums, differences and remainders of built-in integers are taken to be counts, which do not overflow; values read from fields, elements "
        "and library calls of integer type are taken as they are. Conversion routines documented to approximate floating-point input "
        "(to_rational) are exempt inside.")
RULE = ("Scalars of expressions are of arbitrary-precision type. No value that enters exact arithmetic is computed in floating point (literals "
        "that are exact in binary excepted), by converting an exact number to a built-in integer without a check, by a product or repeated "
        "product of built-in integers other than signs and literals, by a shift of a built-in integer by an unbounded amount, or by an integer "
        "division or root whose remainder is dropped. No branch compares an exact number after converting it to floating point.")

NUM = re.compile(r"^(const )?boost::multiprecision::number<")
EXPRT = re.compile(r"^(const )?boost::multiprecision::detail::expression<")
ARITH_OPS = {"+", "-", "*", "/", "%", "+=", "-=", "*=", "/=", "%=", "=", "()"}
CMP = {"<", ">", "<=", ">=", "==", "!="}
PASS = {"forward", "move", "as_const", "decay_copy"}
CHECKED = {"numeric_cast"}
SINKFN = {"make_shared", "make_unique", "numeric_cast", "emplace_back", "push_back"}


def base(t):
    if t is None:
        return ""
    s = t.s
    if s.startswith("const "):
        s = s[6:]
    return s.rstrip("&* ").strip()


def exact(t):
    """an exact number, or something holding exactly one"""
    s = base(t)
    return bool(NUM.match(s) or EXPRT.match(s) or s.startswith("sequant::Complex<boost::multiprecision::number<") or
                s in ("sequant::Constant", "std::shared_ptr<sequant::Constant>"))


def big_int(t):
    s = base(t)
    return bool((NUM.match(s) or EXPRT.match(s)) and "cpp_int" in s and "rational" not in s)


def unbounded(s):
    """does the type text mention only arbitrary-precision backends?"""
    for m in re.finditer(r"cpp_int_backend<([^<>]*(?:<[^<>]*>)?[^<>]*)>", s):
        a = [x.strip().rstrip("UuLl") for x in m.group(1).split(",")]
        if len(a) > 1 and a[1] not in ("0",):
            return False
    if "cpp_bin_float" in s or "cpp_dec_float" in s or "float128" in s or "gmp_float" in s:
        return False
    return True


def isint(t):
    return t is not None and t.integer and not t.boolean and not t.enum


def isflt(t):
    return t is not None and t.floating


class Model:
    def __init__(self, P):
        self.P = P
        self.writes = defaultdict(list)   # variable id -> [(function, op, value or None, node)]
        self.refs = defaultdict(list)
        for f in P.fns.values():
            if f.b is None:
                continue
            for n in f.walk():
                nd = f.N[n]
                k = nd["k"]
                if k == "var" and nd.get("d") is not None:
                    kids = [c for c in nd.get("c") or () if c is not None and c >= 0]
                    if kids:
                        self.writes[nd["d"].id].append((f, "=", kids[-1], n))
                elif k == "asg" and nd.get("c"):
                    d = self.lvar(f, nd["c"][0])
                    if d is not None:
                        self.writes[d.id].append((f, nd.get("o") or "=", nd["c"][1], n))
                elif k == "un" and nd.get("o") in ("++", "--", "post++", "post--") and nd.get("c"):
                    d = self.lvar(f, nd["c"][0])
                    if d is not None:
                        self.writes[d.id].append((f, "+=", None, n))
        self.sink = defaultdict(set)      # function usr -> parameter positions whose values enter exact arithmetic
        self.busy = set()
        self.rets = {}

    def lvar(self, f, n):
        u = memo.unwrap(f, n)
        nd = f.N[u]
        if nd["k"] == "ref" and nd.get("d") is not None and nd["d"].k in ("var", "parm", "bind"):
            return nd["d"]
        return None

    def peel(self, f, n):
        """through conversions, forward and move"""
        while True:
            u = memo.unwrap(f, n)
            nd = f.N[u]
            if nd["k"] == "call" and nd.get("d") is not None and nd["d"].n in PASS and len(nd.get("c") or ()) == 1:
                n = nd["c"][0]
                continue
            if nd["k"] == "ilist" and len(nd.get("c") or ()) == 1:
                n = nd["c"][0]
                continue
            return u

    # ------------------------------------------------------------------ where numbers enter
    def entries(self, f, n):
        """[(operand, kind)] of node n that are built-in numbers entering exact arithmetic"""
        nd = f.N[n]
        k = nd["k"]
        kids = [c for c in nd.get("c") or () if c is not None and c >= 0]
        if not kids:
            return []
        d = nd.get("d")
        if k == "ctor" or k == "cast" or (k == "ilist" and exact(nd.get("t"))):
            if exact(nd.get("t")):
                return kids
            return []
        if k == "asg" and exact(f.N[memo.unwrap(f, kids[0])].get("t")):
            return kids[1:]
        if k == "call":
            o = nd.get("o")
            if o in ARITH_OPS and o != "()" and any(exact(f.N[memo.unwrap(f, c)].get("t")) for c in kids):
                return kids
            if d is None:
                return []
            if d.n in SINKFN and exact(nd.get("t")):
                return kids
            if d.n in ("assign",) and nd.get("m") and exact(f.N[memo.unwrap(f, kids[0])].get("t")):
                return kids[1:]
            if d.n in ("to_rational", "to_ratio") and exact(nd.get("t")):
                return kids[:1]
        return []

    def params(self):
        """fixpoint of parameters that enter exact arithmetic"""
        P = self.P
        flows = defaultdict(set)          # (usr, i) -> callee (usr, j) it is passed to
        work = []
        for f in P.fns.values():
            if f.b is None or exempt(f):
                continue
            ps = {p["d"].id: i for i, p in enumerate(f.p) if p.get("d") is not None}
            for n in f.walk():
                nd = f.N[n]
                for c in self.entries(f, n):
                    u = self.peel(f, c)
                    x = f.N[u]
                    if x["k"] == "ref" and x.get("d") is not None and x["d"].id in ps and (isint(x.get("t")) or isflt(x.get("t"))):
                        i = ps[x["d"].id]
                        if i not in self.sink[f.u]:
                            self.sink[f.u].add(i)
                            work.append((f.u, i))
                for g, j, c in self.passed(f, n):
                    u = self.peel(f, c)
                    x = f.N[u]
                    if x["k"] == "ref" and x.get("d") is not None and x["d"].id in ps and (isint(x.get("t")) or isflt(x.get("t"))):
                        flows[(g.u, j)].add((f.u, ps[x["d"].id]))
        while work:
            t = work.pop()
            for u, i in flows.get(t, ()):
                if i not in self.sink[u]:
                    self.sink[u].add(i)
                    work.append((u, i))

    def passed(self, f, n):
        """(callee, position, argument) of a call or construction that reaches code of the library"""
        nd = f.N[n]
        if nd["k"] not in ("call", "ctor") or nd.get("d") is None:
            return
        kids = list(nd.get("c") or ())
        if nd["k"] == "call" and (nd.get("m") or (nd.get("o") == "()" and kids)):
            kids = kids[1:]
        for g in self.P.targets(f, n):
            if g.b is None:
                continue
            for j, c in enumerate(kids):
                if c is not None and c >= 0 and j < len(g.p):
                    yield g, j, c

    # ------------------------------------------------------------------ how a number is made
    def grade(self, f, n, depth=0):
        """-> (class, problems): class is 'lit', 'sign' or 'other'; problems are [(kind, root, function, node)]"""
        u = self.peel(f, n)
        nd = f.N[u]
        t = nd.get("t")
        k = nd["k"]
        if depth > 40:
            return "other", []
        kids = [c for c in nd.get("c") or () if c is not None and c >= 0]
        v = literal(f, u)
        if v is not None:
            if v[1] and v[0].denominator & (v[0].denominator - 1):
                return "lit", [("floating", "literal %s" % f.N[u].get("v"), f, u)]
            return ("sign" if v[0] in (1, -1) else "lit"), []
        if k in ("int", "chr", "bool", "zero", "sizeof", "enumc"):
            return "lit", []
        if k == "flt":
            return "lit", [("floating", "literal %s" % nd.get("v"), f, u)]
        if k == "defarg":
            return self.grade(f, kids[0], depth + 1) if kids else ("lit", [])
        if exact(t):
            return self.grade_big(f, u, depth) if big_int(t) else ("other", [])
        if k == "cond" and len(kids) == 3:
            a, b = self.grade(f, kids[1], depth + 1), self.grade(f, kids[2], depth + 1)
            return ("sign" if a[0] == b[0] == "sign" else "opaque" if "opaque" in (a[0], b[0]) and
                    {a[0], b[0]} <= {"sign", "lit", "opaque"} else "other"), a[1] + b[1]
        if k == "un" and nd.get("o") in ("-", "+"):
            a = self.grade(f, kids[0], depth + 1)
            return a
        if k == "bin" and nd.get("o") in ("+", "-", "%", "&", "|", "^", ">>", ","):
            if isflt(t):
                return "other", self.leaves(f, u)
            p = []
            for c in (kids[1:] if nd["o"] == "," else kids):
                p += self.grade(f, c, depth + 1)[1]
            return "other", p
        if k == "bin" and nd.get("o") == "*":
            if isflt(t):
                return "other", self.leaves(f, u)
            a, b = self.grade(f, kids[0], depth + 1), self.grade(f, kids[1], depth + 1)
            p = a[1] + b[1]
            if a[0] == b[0] == "sign":
                return "sign", p
            if "sign" in (a[0], b[0]) or "lit" in (a[0], b[0]):
                return ("opaque" if "opaque" in (a[0], b[0]) else "other"), p
            if a[0] == b[0] == "opaque" or self.consecutive(f, kids):
                return "other", p
            return "other", p + [("product", self.name(f, u), f, u)]
        if k == "bin" and nd.get("o") == "/":
            if isflt(t):
                return "other", self.leaves(f, u)
            if len(kids) == 2 and not self.halved(f, kids):
                return "other", [("division", self.name(f, u), f, u)]
            return "other", []
        if k == "bin" and nd.get("o") == "<<":
            a = self.grade(f, kids[0], depth + 1)
            if literal(f, self.peel(f, kids[1])) is not None or self.bounded(f, kids[1]):
                return "other", a[1]
            return "other", a[1] + [("shift", self.name(f, u), f, u)]
        if k == "ref" and nd.get("d") is not None:
            d = nd["d"]
            if d.k == "enumc":
                return "lit", []
            if d.k == "var":
                ws = self.writes.get(d.id)
                if d.id in self.busy:
                    return "self", []
                if not ws:
                    return "other", ([("floating", d.n, f, u)] if isflt(t) else [])
                self.busy.add(d.id)
                try:
                    cls, p = set(), []
                    for g, op, x, w in ws:
                        if x is None:
                            cls.add("other")
                            continue
                        a = self.grade(g, x, depth + 1)
                        p += a[1]
                        if op in ("*=",) and not isflt(t):
                            if a[0] not in ("sign",) and not (a[0] == "lit" and not self.loops(g, w)):
                                p = p + [("product", d.n, g, w)]
                                cls.add("other")
                            else:
                                cls.add(a[0])
                        elif op == "<<=" and not isflt(t):
                            if not (literal(g, self.peel(g, x)) is not None and not self.loops(g, w) or self.bounded(g, x)):
                                p = p + [("shift", d.n, g, w)]
                            cls.add("other")
                        elif op == "/=" and not isflt(t):
                            p = p + [("division", d.n, g, w)]
                            cls.add("other")
                        elif op != "=":
                            cls.add("other")
                        else:
                            cls.add(a[0])
                finally:
                    self.busy.discard(d.id)
                cls.discard("self")
                if isflt(t):
                    if cls <= {"lit", "sign"} and not p and all(op == "=" for g, op, x, w in ws):
                        return "lit", []
                    return "other", p or [("floating", d.n, f, u)]
                return ("sign" if cls == {"sign"} else "lit" if cls <= {"lit", "sign"} and len(ws) == 1 else
                        "opaque" if "opaque" in cls and cls <= {"sign", "lit", "opaque"} else "other"), p
            if d.k == "parm":
                if isflt(t):
                    # judged at the callers, if the parameter itself enters exact arithmetic
                    return "other", ([] if self.is_own_param(f, d) else [("floating", d.n, f, u)])
                return "other", []
            if isflt(t):
                return "other", [("floating", d.n, f, u)]
            return "opaque", []
        if k in ("mem", "idx", "dmem"):
            if isflt(t):
                d = nd.get("d")
                return "other", [("floating", self.field(f, u), f, u)]
            return "opaque", []
        if k in ("cast", "ctor", "call") and kids and nd.get("d") is not None and nd["d"].k == "conv" or \
                k == "call" and nd.get("d") is not None and nd["d"].n in ("convert_to",):
            o = f.N[memo.unwrap(f, kids[0])].get("t")
            if exact(o):
                return "other", [("narrowed", self.name(f, kids[0]), f, u)]
        if k == "call":
            d = nd.get("d")
            if d is not None and d.n in CHECKED:
                if isflt(t):
                    return "other", [("floating", "numeric_cast", f, u)]
                return "other", (self.grade(f, kids[0], depth + 1)[1] if kids else [])
            if isflt(t):
                return "other", self.leaves(f, u)
            ts = [g for g in self.P.targets(f, u) if g.b is not None]
            p, cls = [], set()
            for g in ts:
                if g.u in self.busy:
                    continue
                self.busy.add(g.u)
                try:
                    for r in returns(g):
                        a = self.grade(g, r, depth + 1)
                        cls.add(a[0])
                        p += a[1]
                finally:
                    self.busy.discard(g.u)
            if any(isflt(f.N[memo.unwrap(f, c)].get("t")) for c in kids) and d is not None and not d.repo and \
                    d.n in ("lround", "llround", "lrint", "llrint"):
                p += self.leaves(f, kids[0])
            wide = t is not None and re.match(r"^(const )?(unsigned long|std::size_t|size_t)\b", t.s)
            return ("sign" if cls == {"sign"} else "opaque" if cls == {"opaque"} or not p and wide and not multiplies(ts) else "other"), p
        if isflt(t):
            return "other", self.leaves(f, u)
        return "other", []

    def grade_big(self, f, u, depth):
        """arbitrary-precision integers: only dropped remainders matter"""
        nd = f.N[u]
        k = nd["k"]
        kids = [c for c in nd.get("c") or () if c is not None and c >= 0]
        o = nd.get("o")
        if k == "call" and o == "/" and len(kids) == 2 and not self.halved(f, kids):
            return "other", [("division", self.name(f, u), f, u)]
        if k == "call" and o in ("+", "-", "*") or k in ("un", "cond", "bin"):
            p = []
            for c in (kids[1:] if k == "cond" else kids):
                if big_int(f.N[memo.unwrap(f, c)].get("t")):
                    p += self.grade(f, c, depth + 1)[1]
            return "other", p
        if k == "call" and nd.get("d") is not None and nd["d"].n == "sqrt" and not nd["d"].repo:
            if len(kids) < 2:
                return "other", [("root", self.name(f, u), f, u)]
            r = self.lvar(f, kids[1])
            if r is not None and not any(x != memo.unwrap(f, kids[1]) and f.N[x]["k"] == "ref" and f.N[x].get("d") is not None and
                                         f.N[x]["d"].id == r.id for x in f.walk()):
                return "other", [("root", self.name(f, u), f, u)]
            return "other", []
        if k == "ctor" and len(kids) == 1:
            if big_int(f.N[memo.unwrap(f, kids[0])].get("t")):
                return self.grade(f, kids[0], depth + 1)
            return "other", []
        if k == "ref" and nd.get("d") is not None and nd["d"].k == "var" and nd["d"].id not in self.busy:
            self.busy.add(nd["d"].id)
            p = []
            try:
                for g, op, x, w in self.writes.get(nd["d"].id, ()):
                    if op == "=" and x is not None and big_int(g.N[memo.unwrap(g, x)].get("t")):
                        p += self.grade(g, x, depth + 1)[1]
            finally:
                self.busy.discard(nd["d"].id)
            return "other", p
        if k == "call" and nd.get("d") is not None and nd["d"].repo:
            p = []
            for g in self.P.targets(f, u):
                if g.b is None or g.u in self.busy:
                    continue
                self.busy.add(g.u)
                try:
                    for r in returns(g):
                        if big_int(g.N[memo.unwrap(g, r)].get("t")):
                            p += self.grade(g, r, depth + 1)[1]
                finally:
                    self.busy.discard(g.u)
            return "other", p
        return "other", []

    # ------------------------------------------------------------------ helpers
    def is_own_param(self, f, d):
        return any(p.get("d") is not None and p["d"].id == d.id for p in f.p)

    def leaves(self, f, n):
        """the places a floating-point value comes from"""
        out = []
        stack = [n]
        while stack:
            u = self.peel(f, stack.pop())
            nd = f.N[u]
            if literal(f, u) is not None:
                continue
            kids = [c for c in nd.get("c") or () if c is not None and c >= 0]
            if nd["k"] in ("bin", "un", "cond") and kids:
                stack.extend(kids[1:] if nd["k"] == "cond" else kids)
                continue
            if nd["k"] == "call":
                out.append(("floating", (memo.strip(nd["d"].q) if nd.get("d") is not None and nd["d"].q else "call"), f, u))
            elif nd["k"] in ("mem", "idx", "dmem"):
                out.append(("floating", self.field(f, u), f, u))
            elif nd["k"] == "ref" and nd.get("d") is not None:
                if nd["d"].k == "var":
                    g = self.grade(f, u)
                    out += g[1]
                else:
                    out.append(("floating", nd["d"].n, f, u))
            else:
                out.append(("floating", self.name(f, u), f, u))
        return out or [("floating", self.name(f, n), f, n)]

    def field(self, f, u):
        nd = f.N[u]
        d = nd.get("d")
        if d is None:
            return "element"
        kids = [c for c in nd.get("c") or () if c is not None and c >= 0]
        o = base(f.N[memo.unwrap(f, kids[0])].get("t")) if kids else ""
        return (memo.strip(o).split("::")[-1] + "::" if o else "") + d.n

    def name(self, f, n):
        """names mentioned in an expression"""
        s = []
        for x in f.subtree(n):
            d = f.N[x].get("d")
            if d is not None and f.N[x]["k"] in ("ref", "mem", "call") and d.n and d.n not in s:
                s.append(d.n)
        return ",".join(s[:4])

    def consecutive(self, f, kids):
        """n * (n - 1) and the like: one variable, small polynomial"""
        v = set()
        for c in kids:
            for x in f.subtree(c):
                nd = f.N[x]
                if nd["k"] in ("ref", "mem") and nd.get("d") is not None and nd["d"].k in ("var", "parm", "field", "bind"):
                    v.add(nd["d"].id)
                elif nd["k"] == "call":
                    return False
                elif nd["k"] == "bin" and nd.get("o") not in ("+", "-"):
                    return False
        return len(v) == 1

    def halved(self, f, kids):
        """n * (n - 1) / 2"""
        b = literal(f, self.peel(f, kids[1]))
        a = self.peel(f, kids[0])
        nd = f.N[a]
        if b is not None and b[0] == 1:
            return True
        return b is not None and b[0] == 2 and nd["k"] in ("bin", "call") and nd.get("o") == "*" and self.consecutive(f, nd["c"])

    def bounded(self, f, n):
        """the amount is compared with a literal in this function, or in a function around it"""
        ids = {f.N[x]["d"].id for x in f.subtree(n) if f.N[x]["k"] in ("ref",) and f.N[x].get("d") is not None}
        for m in f.walk():
            nd = f.N[m]
            if nd["k"] == "bin" and nd.get("o") in ("<", "<=", ">", ">="):
                a, b = nd["c"]
                for x, y in ((a, b), (b, a)):
                    z = f.N[self.peel(f, x)]
                    if z["k"] == "ref" and z.get("d") is not None and z["d"].id in ids:
                        w = self.peel(f, y)
                        v = literal(f, w)
                        if v is not None and v[0] <= 64 or f.N[w]["k"] == "ref" and f.N[w]["d"].cx:
                            return True
            if nd["k"] == "call" and nd.get("d") is not None and nd["d"].n in ("min", "clamp") and set(f.subtree(m)) & set(f.subtree(n)):
                return True
        return False

    def loops(self, f, n):
        return any(f.N[a]["k"] in ("for", "while", "do", "rfor") for a in f.ancestors(n))


def literal(f, u):
    """(value, is floating) of a literal expression"""
    nd = f.N[u]
    k = nd["k"]
    if k == "int":
        try:
            return Fraction(int(str(nd.get("v")).rstrip("uUlL"), 0)), False
        except ValueError:
            return None
    if k == "flt":
        try:
            v = Fraction(str(nd.get("v")).rstrip("fFlL"))
        except ValueError:
            return None
        return v, True
    kids = [memo.unwrap(f, c) for c in nd.get("c") or () if c is not None and c >= 0]
    if k == "un" and nd.get("o") in ("-", "+") and kids:
        v = literal(f, kids[0])
        return v and (-v[0] if nd["o"] == "-" else v[0], v[1])
    if k == "bin" and nd.get("o") in ("+", "-", "*", "/") and len(kids) == 2:
        a, b = literal(f, kids[0]), literal(f, kids[1])
        if a is None or b is None:
            return None
        fl = a[1] or b[1]
        if nd["o"] == "/":
            if b[0] == 0 or not fl and (a[0] / b[0]).denominator != 1:
                return None
            return a[0] / b[0], fl
        return (a[0] + b[0] if nd["o"] == "+" else a[0] - b[0] if nd["o"] == "-" else a[0] * b[0]), fl
    return None


def returns(g):
    return [g.N[n]["c"][0] for n in g.walk() if g.N[n]["k"] == "ret" and g.N[n].get("c") and g.N[n]["c"][0] is not None and g.N[n]["c"][0] >= 0]


def multiplies(ts):
    """does the body of one of these functions multiply or shift?"""
    return any(g.N[n].get("o") in ("*", "*=", "<<", "<<=") and g.N[n]["k"] in ("bin", "asg") for g in ts for n in g.walk())


def exempt(f):
    """the documented approximation of floating-point input"""
    return "to_rational" in memo.strip(f.q).replace("(", "::").split("::")


def analyse(P, numeric=lambda f: False):
    M = Model(P)
    cnt = Counter()
    out = []
    M.params()
    for f in P.fns.values():
        if f.b is None or exempt(f):
            continue
        cnt["functions analysed"] += 1
        ps = {p["d"].id for p in f.p if p.get("d") is not None}
        for n in f.walk():
            nd = f.N[n]
            if nd.get("as"):
                continue
            ops = list(M.entries(f, n))
            for g, j, c in M.passed(f, n):
                if j in M.sink.get(g.u, ()):
                    ops.append(c)
            for c in dict.fromkeys(ops):
                u = M.peel(f, c)
                t = f.N[u].get("t")
                if not (isint(t) or isflt(t) or big_int(t)):
                    continue
                if f.N[u]["k"] == "ref" and f.N[u].get("d") is not None and f.N[u]["d"].id in ps and not M.writes.get(f.N[u]["d"].id):
                    cnt["parameters judged at the callers"] += 1
                    continue
                if isint(t) or isflt(t):
                    cnt["built-in numbers entering exact arithmetic"] += 1
                else:
                    if not (nd["k"] in ("ctor", "cast", "ilist") and "rational" in base(nd.get("t"))) and nd["k"] != "call":
                        continue
                    cnt["exact integers entering fractions"] += 1
                for kind, root, g, m in M.grade(f, c)[1]:
                    out.append((g, m, kind, root, "%s, entering exact arithmetic in %s (%s), %s" % (
                        root or "a value", memo.strip(f.q).split("::")[-1], f.loc(n), WHY[kind])))
            # exact integers squeezed into built-in ones
            if not numeric(f) and nd.get("d") is not None and (nd["k"] in ("cast", "ctor", "call") and nd["d"].k == "conv" or nd["k"] == "call" and
                                                               nd["d"].n == "convert_to") and nd.get("c") and isint(nd.get("t")):
                if exact(f.N[memo.unwrap(f, nd["c"][0])].get("t")):
                    out.append((f, n, "narrowed", M.name(f, nd["c"][0]), "an exact number is converted to a built-in integer without a check"))
            # decisions made on rounded numbers
            if nd["k"] == "bin" and nd.get("o") in CMP and not numeric(f):
                for c in nd["c"]:
                    u = M.peel(f, c)
                    if isflt(f.N[u].get("t")):
                        cnt["floating-point comparisons"] += 1
                        r = rounded(M, f, u)
                        if r is not None:
                            out.append((f, n, "compared", M.name(f, u), "an exact number is compared after rounding it to floating point"))
    for f in P.fns.values():
        for n in (f.walk() if f.b is not None else ()):
            t = f.N[n].get("t")
            if t is not None and "boost::multiprecision::number<" in t.s:
                cnt["exact values typed"] += 1
                if not unbounded(t.s):
                    out.append((f, n, "type", "bounded", "the number type %s has limited precision" % t.s[:120]))
    return out, cnt


WHY = {"floating": "is computed in floating point", "product": "is a product of built-in integers, which can overflow",
       "division": "is an integer quotient whose remainder is dropped", "shift": "is a built-in integer shifted by an unbounded amount",
       "narrowed": "is an exact number converted to a built-in one without a check", "root": "is an integer root whose remainder is not examined"}


def rounded(M, f, u, depth=0):
    """does this floating-point value come from an exact one?"""
    if depth > 6:
        return None
    for x in f.subtree(u):
        nd = f.N[x]
        t = nd.get("t")
        if nd["k"] in ("call", "ctor", "cast") and isflt(t):
            for c in nd.get("c") or ():
                if c is not None and c >= 0:
                    o = f.N[memo.unwrap(f, c)].get("t")
                    if exact(o):
                        return x
        if nd["k"] == "ref" and nd.get("d") is not None and nd["d"].k == "var" and isflt(t):
            for g, op, y, w in M.writes.get(nd["d"].id, ()):
                if y is not None and rounded(M, g, y, depth + 1) is not None:
                    return x
    return None


NUMERIC = ("SeQuant/core/eval/", "SeQuant/core/export/", "SeQuant/core/asy_cost", "SeQuant/core/runtime")


def run(pid):
    rep = Report(pid, RULE)
    S = selftest.program("exact")
    found, _ = analyse(S)
    hit = {p for f, n, k, r, t in found for p in memo.strip(f.q).replace("(", "::").split("::") if p.startswith(("bad", "good"))}
    names = {p for f in S.fns.values() for p in memo.strip(f.q).replace("(", "::").split("::") if p.startswith(("bad", "good"))}
    want = {n for n in names if n.startswith("bad")}
    good = {h for h in hit if h.startswith("good")}
    rep.selftest("planted defects are found: " + ", ".join(sorted(want)), len(want) > 9 and want <= hit or print("missed", want - hit))
    rep.selftest("correct variants are quiet", not good or print("noise", good))
    P = facts.load()
    found, cnt = analyse(P, lambda f: f.f.startswith(NUMERIC))
    for k, v in cnt.items():
        rep.count(k, v)
    rep.floor("functions analysed", 3000)
    rep.floor("built-in numbers entering exact arithmetic", 150)
    rep.floor("exact values typed", 1000)
    for f, n, k, r, t in found:
        rep.find("%s|%s" % (k, r), f.loc(n), "%s: %s" % (memo.strip(f.q), t))
    return rep.finish()
