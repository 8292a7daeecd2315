"""C02: the memoized hash of an expression is never stale."""
from sqlib import effects, facts, memo, selftest
from sqlib.report import Report

TECHNIQUE = ("interprocedural may-be-stale dataflow (typestate of the memo per object) over clang CFGs; "
             "hash sources derived from the hash functions themselves")
NOTE = ("Decides every member function of every expression class; the obligation of code that received a mutable "
        "reference or iterator ends where it was handed out (the hash must be reset there). Mutating a "
        "sub-expression through a separately held handle is outside the property.")
RULE = ("Sources of the hash are the members the memoizing hash functions read "
        "(closed over callees). On every CFG path of every public member of an "
        "expression class, a write to a source (directly, through callees, "
        "callbacks or lambdas), or handing a mutable source out, is either made "
        "while the memo is certainly empty or followed by a reset before return.")

HASH = ("sequant::Expr", "hash_value_")


def compute_functions(P, memos):
    """const member functions that fill the memo"""
    fill = set()
    for f in P.fns.values():
        if not f.co or f.lam:
            continue
        for nd in f.N:
            if nd["k"] in ("asg", "call") and nd.get("c"):
                m = memo.unwrap(f, nd["c"][0])
                if m >= 0 and f.N[m]["k"] == "mem" and f.N[m].get("d") is not None \
                        and f.N[m]["d"].k == "field" and memo.fkey(f.N[m]["d"]) in memos:
                    op = "operator=" if nd["k"] == "asg" else \
                        (nd["d"].n if nd.get("d") is not None else "")
                    if op in memo.FILLING:
                        fill.add(f.u)
    return fill


def closure(E, seed):
    out, w = set(), list(seed)
    while w:
        u = w.pop()
        if u in out:
            continue
        out.add(u)
        w += list(E.callers[u])
    return out


def analyse(P, E, memos):
    cache = {}

    def AN(f):
        a = cache.get(f.u)
        if a is None:
            a = cache[f.u] = E.analysis(f)
        return a
    S = memo.Sources(P, E, AN)
    src, base = set(), set()
    fill = compute_functions(P, memos)
    for u in sorted(fill):
        f = P.fns[u]
        r, b = S.reads(f, f.c, memos)
        src |= r
        if b:
            base.add(memo.strip(f.c))
    for b in list(base):
        for k in list(P.derived):
            if memo.strip(k) == b:
                base |= {memo.strip(z) for z in P.all_derived(k)}
    spec = memo.Spec("hash", memos, src, base)
    M = memo.Memo(P, E, AN, spec, closure(E, fill)).run()
    return M, fill, src, base


def run(pid):
    r = Report(pid, RULE)
    S = selftest.program("memo")
    M, _, src, _ = analyse(S, effects.Eff(S), {HASH})
    got = {S.fns[u].n for u in M.final}
    r.selftest("sources derived", {n for _, n in src} == {"label_", "v_"})
    for n in ("bad_set", "bad_branch", "bad_early", "bad_helper", "bad_out", "bad_lambda"):
        r.selftest("fires on " + n, n in got)
    r.selftest("silent on the good ones", not [n for n in got if n.startswith("good")])

    P = facts.load()
    E = effects.Eff(P)
    M, fill, src, base = analyse(P, E, {HASH})
    fam = M.holders()
    r.count("hash functions", len(fill))
    r.count("hash sources (members)", len(src))
    r.floor("hash functions", 7)
    r.floor("hash sources (members)", 15)
    for s in sorted(src):
        r.sample("source %s::%s" % s)
    for f in P.fns.values():
        if f.c and memo.strip(f.c) in fam:
            r.count("expression class members analysed")
            if M.active(f):
                r.count("members that write or hand out a source")
    r.floor("members that write or hand out a source", 60)
    for u, d in M.final.items():
        f = P.fns[u]
        if not f.c or memo.strip(f.c) not in fam:
            continue
        for o, (uu, x) in sorted(d.items(), key=lambda kv: effects.show(kv[0])):
            g = P.fns[uu]
            r.find("%s|%s" % (memo.strip(f.q), effects.show(o)), g.loc(x),
                   "%s changes or hands out for modification what the hash of %s is "
                   "computed from, and can return without the memoized hash having "
                   "been reset" % (memo.strip(f.q), effects.show(o)))
    # a public container base that is hashed can be changed by anyone
    for c in P.clss:
        if memo.strip(c.q) not in base:
            continue
        for bq, _ in c.bases:
            if not bq or bq.startswith("sequant::"):
                continue
            r.find("%s|public container base" % memo.strip(c.q), "%s:%s" % (c.f, c.l),
                   "%s publicly inherits the container its hash is computed from: its "
                   "inherited modifiers (push_back, ...) leave the memoized hash stale"
                   % memo.strip(c.q))
    return r.finish()
