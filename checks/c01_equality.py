"""C01: equality is complete, hash agrees with equality."""
from sqlib import effects, facts, memo, relsym, selftest
from sqlib.report import Report

TECHNIQUE = ("abstract interpretation of every comparison function over {equal, less, greater} per member, against the "
             "members the class declares; interprocedural read sets of the hash functions")
NOTE = ("The comparison's syntax tree is interpreted over a finite abstraction of its inputs (which members agree), so "
        "the verdict covers all inputs. Members whose comparison goes through a function of them are taken to be "
        "compared in full unless that function is a size, a hash or a predicate.")
RULE = ("For every class of expressions, indices, spaces, operators and quantum numbers: (1) if all members agree, "
        "equality yields true; (2) for every member that carries value, if that member alone differs (sizes and hashes "
        "agreeing), equality yields false on every path; (3) if only a mutable member differs, equality yields true; (4) "
        "every member the hash function reads, through any callee, is one that equality compares; (5) != is the "
        "negation of ==; (6) expressions of different kinds are unequal.")

NAMED = {"sequant::Index", "sequant::IndexSpace", "sequant::IndexSpace::Attr", "sequant::TypeAttr",
         "sequant::QuantumNumbersAttr", "sequant::Op", "sequant::Complex", "sequant::SlottedIndex",
         "sequant::mbpt::QuantumNumberChange"}
# members that are no part of the value, with the reason
NOVALUE = {
    ("sequant::Tensor", "hermiticity_"): "documented: braket_symmetry_ is the observable",
    ("sequant::Tensor", "bra_net_rank_"): "count derived from bra_ (C03)",
    ("sequant::Tensor", "ket_net_rank_"): "count derived from ket_ (C03)",
    ("sequant::Sum", "constant_summand_idx_"): "position derived from summands_",
    ("sequant::IndexSpace", "approximate_size_"): "documented: does not affect expressions",
    ("sequant::IndexSpace", "field_"): "attribute of the registered space",
    ("sequant::Index", "symmetric_proto_indices_"): "documented: equality is by proto-indices",
    ("sequant::mbpt::Operator", "tensor_form_generator_"): "a std::function has no equality",
    ("sequant::mbpt::Operator", "is_adjoint_"): "folded into the label and the quantum numbers",
    ("sequant::NormalOperator", "hug_"): "cache",
}


def family(P):
    out = set()
    for k in list(P.derived):
        if memo.strip(k) == "sequant::Expr":
            out |= {memo.strip(z) for z in P.all_derived(k)}
    return out


class Model:
    def __init__(self, P, E):
        self.P, self.E = P, E
        self.cache, self.rc = {}, {}
        self.S = memo.Sources(P, E, self.AN)
        self.fields = {}       # class -> {member: mutable?}
        self.cbase = set()     # classes with a foreign container base
        for c in P.clss:
            q = memo.strip(c.q)
            if c.lam:
                continue
            d = self.fields.setdefault(q, {})
            for fd in c.fields:
                d[fd["n"]] = bool(fd.get("mu"))
            for b, t in c.bases:
                s = t.s if t is not None else (b or "")
                if not s.startswith("sequant::") and any(
                        z in s for z in ("vector", "std::array", "flat_", "std::map", "std::set",
                                         "basic_string")):
                    self.cbase.add(q)

    def AN(self, f):
        a = self.cache.get(f.u)
        if a is None:
            a = self.cache[f.u] = self.E.analysis(f)
        return a

    def reads(self, g):
        r = self.rc.get(g.u)
        if r is None:
            s, b = self.S.reads(g, g.c, set()) if g.c else (set(), False)
            r = self.rc[g.u] = frozenset(n for _, n in s) | \
                (frozenset(["<base>"]) if b else frozenset())
        return r

    def members(self, q):
        """value members of class q (own and inherited), bookkeeping members"""
        val, book = set(), set()
        todo = [q]
        seen = set()
        names = defaultdict_set(self.P)
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            for n, mu in self.fields.get(k, {}).items():
                if mu:
                    book.add(n)
                elif (k, n) not in NOVALUE:
                    val.add(n)
            if k in self.cbase:
                val.add("<base>")
            todo += names.get(k, ())
        return val, book


def defaultdict_set(P):
    out = {}
    for k, bs in P.bases.items():
        out.setdefault(memo.strip(k), set()).update(memo.strip(b) for b in bs)
    return out


def subject(f):
    """the class whose objects f compares, or None"""
    if f.lam or f.imp or f.dflt or f.b is None:
        return None
    if f.n == "static_equal" and f.c:
        return memo.strip(f.c)
    if f.n in ("operator==", "operator!="):
        ts = []
        if f.c and not f.st and len(f.p) == 1:
            ts.append(memo.strip(f.c))
        for p in f.p:
            t = p["t"]
            ts.append(memo.strip(t.r) if t is not None and t.r else None)
        if len(ts) == 2 and ts[0] == ts[1]:
            return ts[0]
    return None


def judge(M, f, q):
    """-> list of (what, detail)"""
    P = M.P
    out = []
    neg = f.n == "operator!="
    val, book = M.members(q)
    try:
        res, used, asym = relsym.outcomes(P, M.reads, f, {}, forced="eq")
    except relsym.Unsup:
        # loops etc.: at least every value member must be read on both sides
        got = []
        roots = ([(("t",), ())] if f.c and not f.st else []) + \
            [(("p", i), ()) for i in range(len(f.p))]
        for r in roots:
            s, b = M.S.reads(f, q, set(), root=r, mut=True)
            got.append({n for _, n in s} | ({"<base>"} if b else set()))
        if len(got) == 2:
            for n in sorted(val):
                if any(n not in g for g in got):
                    out.append(("ignores", n))
        return out, False
    for a, b in asym:
        out.append(("unlike", "compares different parts of the two objects"))
    for v, preds, opaque in res:
        if isinstance(v, bool) and v == neg and not opaque:
            out.append(("reflexive", "equal objects can be found unequal"))
    for n in sorted(val):
        r, _, _ = relsym.outcomes(P, M.reads, f, {n: "lt"}, forced="eq")
        for v, preds, opaque in r:
            if isinstance(v, bool) and v != neg and not opaque and n not in preds:
                out.append(("ignores", n))
        if all(v != neg for v, _, _ in r if isinstance(v, bool)) and \
                not all(o for _, _, o in r):
            out.append(("ignores", n))
    for n in sorted(book):
        r, _, _ = relsym.outcomes(P, M.reads, f, {n: "lt"}, forced="eq")
        if any(isinstance(v, bool) and v == neg and not o for v, _, o in r):
            out.append(("bookkeeping", n))
    return sorted(set(out)), True


def hashes(M, scope):
    """(class, function, root) of the hash functions in scope"""
    P = M.P
    for f in P.fns.values():
        if f.lam or f.b is None or f.imp or f.dflt:
            continue
        if f.n == "memoizing_hash" and f.c and memo.strip(f.c) in scope:
            yield memo.strip(f.c), f, (("t",), ())
        elif f.n == "hash_value":
            if f.c and not f.p and memo.strip(f.c) in scope:
                yield memo.strip(f.c), f, (("t",), ())
            elif not f.c and len(f.p) == 1 and f.p[0]["t"] is not None and f.p[0]["t"].r and \
                    memo.strip(f.p[0]["t"].r) in scope:
                yield memo.strip(f.p[0]["t"].r), f, (("p", 0), ())


def compared(M, f, q):
    try:
        ok = set()
        val, book = M.members(q)
        allm = val | book | {n for (k, n) in NOVALUE if k == q}
        for n in allm:
            r, _, _ = relsym.outcomes(M.P, M.reads, f, {n: "lt"}, forced="eq")
            if any(v is False for v, _, _ in r):
                ok.add(n)
        return ok
    except relsym.Unsup:
        return None


DERIVED = {("sequant::Tensor", "bra_net_rank_"), ("sequant::Tensor", "ket_net_rank_"),
           ("sequant::Sum", "constant_summand_idx_")}


def analyse(P, E, named=NAMED, r=None):
    M = Model(P, E)
    scope = family(P) | named
    out = []
    eqs = {}
    for f in P.fns.values():
        q = subject(f)
        if q is None or q not in scope or q == "sequant::Expr":
            continue
        bad, full = judge(M, f, q)
        val, book = M.members(q)
        if r is not None:
            r.count("comparison functions interpreted" if full else
                    "comparison functions covered by read sets only")
            r.count("value members checked", len(val))
            r.count("bookkeeping members checked", len(book))
            r.sample("%s: %s" % (memo.strip(f.q) if "operator" not in f.q else q + " " + f.n,
                                 ", ".join(sorted(val))))
        for what, d in bad:
            out.append((q, f, what, d))
        if f.n != "operator!=":
            eqs.setdefault(q, []).append(f)
    for q, f, root in hashes(M, scope):
        s, b = M.S.reads(f, f.c or q, set(), root=root, mut=True)
        if root[0] == ("t",):
            got = {n for c, n in s}
        else:
            got = {n for c, n in s}
        if b:
            got.add("<base>")
        cands = eqs.get(q, [])
        if not cands:
            # inherited comparison
            todo = [q]
            nb = defaultdict_set(P)
            seen = set()
            while todo and not cands:
                k = todo.pop(0)
                if k in seen:
                    continue
                seen.add(k)
                cands = eqs.get(k, [])
                todo += sorted(nb.get(k, ()))
        val, book = M.members(q)
        own = val | book | {n for (k, n) in NOVALUE if k == q}
        got &= own
        got -= {n for n in got if n.startswith("hash_value_") or n == "bra_hash_value_" or
                n in ("label_", "full_label_") and n in book}
        if r is not None:
            r.count("hash functions")
            r.count("hash reads", len(got))
        for g in cands:
            c = compared(M, g, q)
            if c is None:
                continue
            for n in sorted(got - c):
                if (q, n) in DERIVED:
                    continue
                out.append((q, f, "hashed but not compared", n))
        for n in sorted(got & book):
            out.append((q, f, "hashed bookkeeping", n))
    # kinds
    for f in P.fns.values():
        if f.n == "operator==" and not f.c and len(f.p) == 2 and not f.lam and \
                all(p["t"] is not None and p["t"].r == "sequant::Expr" for p in f.p):
            try:
                res, _, _ = relsym.outcomes(P, M.reads, f, {"<type>": "lt"}, forced="eq")
                if any(v is not False for v, _, _ in res):
                    out.append(("sequant::Expr", f, "kinds", "type identity"))
                if r is not None:
                    r.count("kind comparisons")
            except relsym.Unsup:
                pass
    return out


TEXT = {
    "ignores": "equality of %s ignores %s: objects differing in it compare equal",
    "unlike": "equality of %s %s",
    "reflexive": "equality of %s: %s",
    "bookkeeping": "equality of %s depends on bookkeeping member %s",
    "hashed but not compared": "hash of %s depends on %s, which equality ignores: equal objects can hash differently",
    "hashed bookkeeping": "hash of %s depends on bookkeeping member %s",
    "kinds": "expressions of different kinds can compare equal (%s: %s)",
}


def run(pid):
    r = Report(pid, RULE)
    S = selftest.program("equality")
    got = {(q.split("::")[-1], w, d) for q, _, w, d in analyse(
        S, effects.Eff(S), {"sequant::" + n for n in
                            ("Good", "GoodLoop", "Miss", "Or", "Tagged", "Cross", "Neg",
                             "HashMore", "Shortcut")})}
    names = {g[0] for g in got}
    for n in ("Miss", "Or", "Tagged", "Cross", "Neg", "HashMore", "Shortcut"):
        r.selftest("fires on " + n, n in names)
    r.selftest("silent on the good ones", not names & {"Good", "GoodLoop"})

    P = facts.load()
    E = effects.Eff(P)
    for q, f, what, d in analyse(P, E, NAMED, r):
        r.find("%s|%s|%s|%s" % (q, f.n, what, d), f.loc(), TEXT[what] % (q, d))
    r.floor("comparison functions interpreted", 20)
    r.floor("hash functions", 10)
    r.floor("value members checked", 45)
    r.floor("hash reads", 20)
    r.floor("kind comparisons", 1)
    return r.finish()
