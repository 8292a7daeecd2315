"""C06: checks that are compiled out in release builds have no effects."""
from sqlib import effects, facts, selftest
from sqlib.report import Report

TECHNIQUE = "interprocedural write-effect analysis of assertion conditions over the clang AST/CFG"
NOTE = ("Sound up to the effect model of external (standard library) calls; decides every assertion in every "
        "translation unit the build compiles plus instantiated header templates. Caches are exempt.")
RULE = ("For every assertion (SEQUANT_ASSERT / assert) in every analysed function "
        "body: the interprocedural write-effect analysis must find no write, "
        "increment, container modification, destructive move or mutating call "
        "(directly or through any callee) to anything that outlives the "
        "assertion's condition.  Caches (mutable members) are exempt: whether a "
        "memo has been filled is not observable.")


def fails_if_created(f, x):
    """m[k] > 0, m[k] != 0: had the subscript created the entry, the assertion
    would not hold, so a passing assertion creates nothing"""
    p = f.parent(x)
    while p is not None and f.N[p]["k"] in ("cast", "x") and len(f.N[p]["c"]) == 1:
        x, p = p, f.parent(p)
    if p is None or f.N[p]["k"] != "bin" or not f.N[p].get("as"):
        return False
    nd = f.N[p]
    a, b = nd["c"]
    o = nd["o"]
    if b == x:
        a, b = b, a
        o = {"<": ">", ">": "<"}.get(o, o)
    y = b
    while f.N[y]["k"] == "cast" and f.N[y]["c"]:
        y = f.N[y]["c"][0]
    if f.N[y]["k"] != "int" or o not in (">", "!=") or str(f.N[y]["v"]) != "0":
        return False
    # only conjunctions above
    q = f.parent(p)
    while q is not None and f.N[q].get("as"):
        if f.N[q]["k"] == "bin" and f.N[q]["o"] != "&&":
            return False
        if f.N[q]["k"] == "un" and f.N[q]["o"] == "!":
            # the macro itself negates the whole condition
            z = f.parent(q)
            if z is not None and f.N[z].get("as") and f.N[z]["k"] != "if":
                return False
        q = f.parent(q)
    return True


def analyse(P, E):
    out = []
    nas = nfn = 0
    for f in P.fns.values():
        an = {i for i, x in enumerate(f.N) if x.get("as")}
        if not an:
            continue
        nfn += 1
        lines = {f.N[i].get("l") for i in an}
        nas += len(lines)
        a = E.analysis(f)
        inner = {f.N[i]["d"] for i in an if f.N[i]["k"] == "var"}
        for q, x, why in a.sites:
            if x in an and not (q[0][0] == "v" and q[0][1] in inner):
                if why == "by operator[]()" and fails_if_created(f, x):
                    continue
                out.append((f, x, q, why))
        # std::move of something inside a condition, passed on by value
        for i in an:
            nd = f.N[i]
            if nd["k"] == "call" and nd.get("d") is not None and \
                    nd["d"].n == "move" and (nd["d"].q or "").startswith("std::") and \
                    len(nd["c"]) == 1:
                p = f.parent(i)
                if p is not None and f.N[p]["k"] == "ctor" and \
                        f.N[p]["d"].ck == "move":
                    out.append((f, i, None, "moved from"))
            if nd["k"] in ("delete",):
                out.append((f, i, None, "deleted"))
    return out, nas, nfn


def run(pid):
    r = Report(pid, RULE)
    S = selftest.program("asserts")
    found = {f.n for f, x, q, w in analyse(S, effects.Eff(S))[0]}
    for n in ("bad_increment", "bad_insert", "bad_callee", "bad_move", "bad_ref"):
        r.selftest("fires on " + n, n in found)
    r.selftest("silent on the good ones", not [n for n in found if n.startswith("good")])
    P = facts.load()
    E = effects.Eff(P)
    bad, nas, nfn = analyse(P, E)
    r.count("assertion lines", nas)
    r.count("functions with assertions", nfn)
    r.count("functions summarised", len(P.fns))
    r.floor("functions with assertions", 300)
    for f, x, q, why in bad:
        what = effects.show(q) if q else "an object"
        r.find("%s|%s" % (f.q, what), f.loc(x),
               "the condition of an assertion in %s modifies %s (%s); the release "
               "build, which drops the assertion, behaves differently" % (f.q, what, why))
    return r.finish()
