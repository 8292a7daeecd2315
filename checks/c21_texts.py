"""C21: text forms of enumerated attributes round-trip."""
import os
from sqlib import facts, memo, selftest, texts
from sqlib.report import Report
from checks import c17_dispatch as c17

TECHNIQUE = ("evaluation from the source of every function that turns an enumerated attribute into text and back: each is evaluated over the "
             "CFG for every enumerator (every text), branches on anything else taken both ways; injectivity of the writers, inverse relation "
             "of writers and readers of the same format, agreement of the order in which attributes are written and read")
NOTE = ("The order of the attributes in the grammar itself (boost::fusion adaptation of the syntax tree) is taken to be the declaration order. "
        "A function whose text depends on run-time values that cannot be decided is noted, not judged.")
RULE = ("A function giving text for an enumerated attribute gives a distinct text for every value. A reader of the same format maps every text "
        "its writer produces back to the value written. The marks of a tensor's attributes are read in the order they are written. The suffixes "
        "that mark a spin are the ones stripped when it is removed. The labels of normal operators differ between statistics and vacua and are "
        "read back as the vacuum they are written for.")
TEXTY = ("basic_string", "wstring", "std::string", "char", "wchar_t")


def texty(t):
    if t is None or t.boolean:
        return False
    s = t.s.replace("const ", "").replace("&", "").strip()
    return s.startswith(("std::basic_string<", "std::basic_string_view<")) or s in ("char", "wchar_t", "char *", "wchar_t *", "std::string",
                                                                                 "std::wstring", "std::string_view", "std::wstring_view")


def stream(t):
    return t is not None and "basic_ostream<" in t.s


def enums_in(E, t):
    """enumerations a return type carries (also as alternatives of a variant or an optional)"""
    if t is None:
        return []
    q = E.of_type(t)
    if q:
        return [q]
    s = t.s
    if s.startswith(("std::variant<", "std::optional<")):
        return [q for q in E.all if q in [x.strip() for x in s[s.index("<") + 1:-1].split(",")]]
    return []


class Model:
    def __init__(self, P):
        self.P = P
        self.E = c17.Enums(P)
        self.T = texts.Texts(P, self.E)
        self.writers = []     # (f, enum, {value: text or None})
        self.readers = []     # (f, enum list, param index)
        self.find()

    def find(self):
        for f in self.P.fns.values():
            if f.imp or f.g is None or f.fk in ("ctor", "copy", "move", "dtor"):
                continue
            ep = [(i, self.E.of_type(p["t"])) for i, p in enumerate(f.p) if self.E.of_type(p["t"])]
            if (texty(f.t) or stream(f.t)) and len(ep) == 1:
                tab = self.write(f, ep[0][0], ep[0][1])
                if tab is not None:
                    self.writers.append((f, ep[0][1], tab))
            es = enums_in(self.E, f.t)
            tp = [i for i, p in enumerate(f.p) if texty(p["t"]) and not p["t"].ptr and "*" not in p["t"].s]
            if es and len(tp) == 1:
                self.readers.append((f, es, tp[0]))

    def write(self, f, i, q):
        """text for every enumerator; None when this is not a text form"""
        tab = {}
        for v in self.E.all[q]:
            env = {}
            for j, p in enumerate(f.p):
                if j == i:
                    env[p["d"].id] = ("e", q, v)
                elif texty(p["t"]):
                    env[p["d"].id] = ("s", "\u27e8%s\u27e9" % p["d"].n)
            r = {x for x in self.T.run(f, env) if x[0] != "err"}
            if not r:
                tab[v] = "error"
                continue
            ts = {(self.T.text(x[1]) if x[0] == "ret" else x[1]) for x in r}
            tab[v] = next(iter(ts)) if len(ts) == 1 else None
            if tab[v] is not None:
                tab[v] = ("text", tab[v])
        if not any(isinstance(t, tuple) for t in tab.values()):
            return None
        return tab

    def read(self, f, i, text):
        p = f.p[i]
        s = p["t"].s.replace("const ", "").replace("&", "").strip()
        if s in ("char", "wchar_t"):
            if len(text) != 1:
                return {("err",)}
            v = ("c", ord(text))
        else:
            v = ("s", text)
        return self.T.run(f, {p["d"].id: v})


def analyse(P, rep=None):
    M = Model(P)
    E = M.E
    found = []
    notes = []
    cnt = {"text forms of enumerations": 0, "texts evaluated": 0, "writer/reader pairs": 0, "texts read back": 0,
           "attribute sequences compared": 0, "suffixes compared": 0, "operator labels compared": 0}
    seen = set()
    for f, q, tab in M.writers:
        nm = E.all[q]
        cnt["text forms of enumerations"] += 1
        cnt["texts evaluated"] += len(tab)
        if rep is not None and (f.q, q) not in seen:
            seen.add((f.q, q))
            rep.sample("%s(%s): %s" % (memo.strip(f.q), q, ", ".join("%s=%r" % (nm[v], t[1] if isinstance(t, tuple) else t)
                                                                     for v, t in sorted(tab.items()))))
        inv = {}
        for v, t in sorted(tab.items()):
            if isinstance(t, tuple):
                inv.setdefault(t[1], []).append(v)
        for t, vs in inv.items():
            if len(vs) > 1:
                found.append((f, None, "same:%s:%s" % (q, "+".join(sorted(nm[v] for v in vs))), "gives the same text '%s' for %s of %s" %
                              (t, " and ".join(sorted(nm[v] for v in vs)), q)))
    for f, q, tab in M.writers:
        for g, es, i in M.readers:
            if q not in es or not fmt(f, g):
                continue
            cnt["writer/reader pairs"] += 1
            nm = E.all[q]
            for v, t in sorted(tab.items()):
                if not isinstance(t, tuple) or "\u27e8" in t[1]:
                    continue
                cnt["texts read back"] += 1
                r = M.read(g, i, t[1])
                ok = {x for x in r if x[0] == "ret" and x[1] is not None and x[1][0] == "e"}
                unk = {x for x in r if x[0] == "ret" and (x[1] is None or x[1][0] != "e")}
                if unk:
                    wrong = {x for x in ok if not (x[1][1] == q and x[1][2] == v)}
                    if not wrong or len(unk) > 1:
                        continue
                    # a default the reader gets when the text is not there at all does not matter
                    notes.append("%s: a path returns a value not decided" % memo.strip(g.q))
                if not ok and not unk:
                    found.append((g, None, "read:%s:%s" % (q, nm[v]), "rejects '%s', which %s writes for %s" %
                                  (t[1], memo.strip(f.q), nm[v])))
                for x in ok:
                    if x[1][1] != q or x[1][2] != v:
                        got = E.all[x[1][1]].get(x[1][2], x[1][2])
                        found.append((g, None, "read:%s:%s" % (q, nm[v]), "reads '%s', which %s writes for %s::%s, as %s::%s" %
                                      (t[1], memo.strip(f.q), q, nm[v], x[1][1], got)))
    order(P, M, found, cnt)
    suffixes(P, M, found, cnt)
    labels(P, M, found, cnt)
    return found, cnt, notes


def fmt(f, g):
    """same format: same directory, or the same file"""
    return os.path.dirname(f.f) == os.path.dirname(g.f) and (f.f == g.f or "serialization" in f.f)


def calls(P, f, fs):
    """calls of any of the functions fs in f, in evaluation order"""
    us = {x.u for x in fs}
    out = []
    order_ = {}
    k = 0
    for n in f.walk():
        nd = f.N[n]
        if nd["k"] == "call":
            for t in P.targets(f, nd):
                if t.u in us:
                    out.append((nd.get("l", 0), n, t))
    out.sort(key=lambda x: (x[0], x[1]))
    return out


def order(P, M, found, cnt):
    """attributes written one after the other are read in that order"""
    pairs = {}
    for f, q, tab in M.writers:
        for g, es, i in M.readers:
            if q in es and fmt(f, g):
                pairs.setdefault(os.path.dirname(f.f), [[], []])
                pairs[os.path.dirname(f.f)][0].append((f, q))
                pairs[os.path.dirname(f.f)][1].append((g, q, i))
    for d, (ws, rs) in pairs.items():
        seqs = []
        for h in P.fns.values():
            if os.path.dirname(h.f) != d or h.g is None:
                continue
            cs = calls(P, h, [w for w, _ in ws])
            qs = []
            for l, n, t in cs:
                q = next(q for w, q in ws if w.u == t.u)
                if q not in qs:
                    qs.append(q)
            if len(qs) >= 2:
                seqs.append((h, qs))
        reads = []
        for h in P.fns.values():
            if os.path.dirname(h.f) != d or h.g is None:
                continue
            cs = calls(P, h, [r for r, _, _ in rs])
            m = {}
            for l, n, t in cs:
                for g, q, i in rs:
                    if g.u != t.u:
                        continue
                    a = [y for y in h.N[n]["c"] if y >= 0]
                    if i >= len(a):
                        continue
                    x = c17.skip(h, a[i])
                    if h.N[x]["k"] == "mem" and h.N[x].get("d") is not None and h.N[x]["d"].k == "field":
                        m[q] = h.N[x]["d"]
            if len(m) >= 2:
                reads.append((h, m))
        for w, qs in seqs:
            for h, m in reads:
                ds = {x.n: x for x in m.values()}
                cls = next((c for c in P.clss if not c.dep and {fd["n"] for fd in c.fields} >= set(ds) and
                            any(fd.get("d") is x or fd["n"] == x.n for fd in c.fields for x in ds.values())
                            and os.path.dirname(c.f) == d), None)
                if cls is None:
                    continue
                pos = {fd["n"]: i for i, fd in enumerate(cls.fields)}
                cnt["attribute sequences compared"] += 1
                common = [q for q in qs if q in m]
                byread = sorted(common, key=lambda q: pos[m[q].n])
                if common != byread:
                    found.append((h, None, "order", "reads the attributes as %s, but %s writes them as %s" %
                                  (", ".join(byread), memo.strip(w.q), ", ".join(common))))
                if len({m[q].n for q in common}) != len(common):
                    found.append((h, None, "order", "reads two attributes from the same mark"))


def suffixes(P, M, found, cnt):
    """the characters a writer appends to a label are the ones its remover strips"""
    for f, q, tab in M.writers:
        suf = set()
        for v, t in tab.items():
            if isinstance(t, tuple) and t[1].startswith("\u27e8"):
                suf.add(t[1][t[1].index("\u27e9") + 1:])
        suf -= {""}
        if not suf:
            continue
        base = memo.strip(f.q).rsplit("_", 1)
        if len(base) != 2:
            continue
        for g in P.byname().get(base[0] + "_remove", ()):
            if g.g is None or not g.p or not texty(g.p[0]["t"]):
                continue
            lits = {chr(int(g.N[n]["v"])) for n in g.walk() if g.N[n]["k"] == "chr" and not g.N[n].get("as")}
            for n in g.walk():
                if g.N[n]["k"] == "str" and not g.N[n].get("as"):
                    lits |= set(texts.unesc(g.N[n].get("v", "")))
                elif g.N[n]["k"] == "ref" and g.N[n].get("d") is not None and g.N[n]["d"].k == "var" and not g.N[n].get("as"):
                    t = M.T.text(M.T.constant(g, g.N[n]["d"])) if M.T.constant(g, g.N[n]["d"]) else None
                    lits |= set(t or "")
            if not lits:
                continue
            cnt["suffixes compared"] += len(suf)
            for s in sorted(suf):
                if not set(s) <= lits:
                    found.append((g, None, "suffix:" + s, "does not strip '%s', which %s appends" % (s, memo.strip(f.q))))


def labels(P, M, found, cnt):
    """labels of normal operators"""
    tabs = []
    for f in P.byname().get("sequant::NormalOperator::labels", ()):
        t = None
        for x in f.walk():
            if f.N[x]["k"] == "ret" and f.N[x].get("c"):
                t = M.T.table(f, f.N[x]["c"][0], {})
        if t is None:
            continue
        vals = [M.T.text(M.T.ev(t[0], y, {}, None)) for y in t[1]]
        tabs.append((f, vals))
    allv = []
    for f, vals in tabs:
        for v in vals:
            if v is not None:
                cnt["operator labels compared"] += 1
                for g, w in allv:
                    if w == v:
                        found.append((f, None, "label:%s" % v, "the label '%s' stands for two kinds of normal operator" % v))
                allv.append((f, v))
    for f in P.byname().get("sequant::NormalOperator::label", ()):
        res = {}
        keys = [k for k in (("c", "vacuum", ("this",)), ("m", "vacuum_", ("this",)))]
        vq = next((q for q in M.E.all if q.endswith("::Vacuum")), None)
        for v, n in M.E.all[vq].items() if vq else ():
            r = M.T.run(f, {}, {k: ("e", vq, v) for k in keys})
            r = {x for x in r if x[0] != "err"}
            if len(r) == 1:
                x = next(iter(r))
                res[n] = M.T.text(x[1]) if x[0] == "ret" else None
        a, b = res.get("Physical"), res.get("SingleProduct")
        if a is not None and b is not None:
            cnt["operator labels compared"] += 1
            if a == b:
                found.append((f, None, "vacuum", "gives the same label '%s' for the physical and the single-product vacuum" % a))
            same_ = [(g, vals) for g, vals in tabs if g.u.split("@F@")[0] == f.u.split("@F@")[0]]
            for g, vals in same_:
                reader(P, M, found, cnt, g, vals, a, b)


def reader(P, M, found, cnt, lf, vals, a, b):
    """where the position of a label in the list decides the vacuum"""
    if a not in vals or b not in vals:
        return
    want = {0: "Physical" if vals[0] == a else "SingleProduct"}
    vq = next((q for q in M.E.all if q.endswith("::Vacuum")), None)
    for f in P.fns.values():
        if "serialization" not in f.f:
            continue
        for n in f.walk():
            nd = f.N[n]
            if nd["k"] != "cond" or M.E.of_type(nd.get("t")) != vq or len(nd["c"]) != 3:
                continue
            sub = [f.N[y] for y in f.subtree(nd["c"][0])]
            if not any(z["k"] == "call" and z.get("d") is not None and z["d"].n == "begin" for z in sub) and \
                    not any(z["k"] == "call" and z.get("o") == "()" for z in sub):
                continue
            eqs = [z for z in sub if z.get("o") in ("==", "!=")]
            lt = [t for z in sub if z["k"] == "call" and z.get("d") is not None and z["d"].n == "labels" for t in P.targets(f, z)]
            if len(eqs) < 1 or not any(t.u == lf.u for t in lt):
                continue
            t, e = M.E.value(f, nd["c"][1]), M.E.value(f, nd["c"][2])
            if t is None or e is None:
                continue
            if eqs[0]["o"] == "!=":
                t, e = e, t
            cnt["operator labels compared"] += 1
            nm = M.E.all[vq]
            if nm[t[1]] != want[0] or nm[e[1]] == want[0]:
                found.append((f, n, "vacuum", "reads the first label of a normal operator as vacuum %s, it is written for %s" %
                              (nm[t[1]], want[0])))


def run(pid):
    rep = Report(pid, RULE)
    S = selftest.program("texts")
    found, _, _ = analyse(S)
    hit = {p for f, n, k, t in found for p in memo.strip(f.q).split("::") if p.startswith(("bad", "good"))}
    names = {p for f in S.fns.values() for p in memo.strip(f.q).split("::") if p.startswith(("bad", "good"))}
    want = {n for n in names if n.startswith("bad") and not n.endswith("_helper")}
    good = {h for h in hit if h.startswith("good")}
    rep.selftest("planted defects are found: " + ", ".join(sorted(want)), len(want) > 6 and want <= hit or print("missed", want - hit))
    rep.selftest("correct variants are quiet", not good or print("noise", good))
    P = facts.load()
    found, cnt, notes = analyse(P, rep)
    for k, v in cnt.items():
        rep.count(k, v)
    rep.floor("text forms of enumerations", 8)
    rep.floor("texts evaluated", 30)
    rep.floor("writer/reader pairs", 2)
    rep.floor("operator labels compared", 4)
    for n in sorted(set(notes)):
        rep.notes.append(n)
    for f, n, k, t in found:
        rep.find("%s|%s" % (memo.strip(f.q), k), f.loc(n) if n is not None else "%s:%s" % (f.f, f.l), "%s: %s" % (memo.strip(f.q), t))
    return rep.finish()
