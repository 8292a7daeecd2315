"""C16: adjoint conjugates every part."""
from sqlib import facts, inv, memo, selftest
from sqlib.report import Report

TECHNIQUE = ("abstract execution of every adjoint over (member, involutions applied an odd number of times), all branches "
             "joined, enumerated members fixed by assumption")
NOTE = ("Loops over a container are one step for all elements (skipped elements show as an untouched alternative only when "
        "the skip is a branch). Reordering inside slot canonicalization is outside this property. Numeric backends of the "
        "evaluator are not built here.")
RULE = ("For every expression kind and operator class, the effective adjoint leaves each part transformed exactly as its "
        "role demands on every path: scalars conjugated, conjugation flags toggled, bra and ket (and their ranks) exchanged, "
        "sub-expressions and elementary operators each replaced by their adjoint and - where the order matters - reversed, "
        "creator counts complemented, the adjoint mark on a label toggled exactly where the mark carries the information, and "
        "everything else unchanged.")
S = frozenset

# kind -> {member: [(source, involutions demanded)...alternatives]}, 'same' for unchanged
R_, A_, C_, N_, M_ = "rev", "adj", "conj", "not", "mark"
ROLES = {
    "Constant": {"value_": [("value_", {C_})]},
    "Variable": {"conjugated_": [("conjugated_", {N_})], "label_": "same"},
    "Power": {"conjugated_": [("conjugated_", {N_})], "base_": "same", "exponent_": "same"},
    "Product": {"scalar_": [("scalar_", {C_})], "factors_": [("factors_", {R_, A_})]},
    "CProduct": {"scalar_": [("scalar_", {C_})], "factors_": [("factors_", {A_}), ("factors_", {R_, A_})]},
    "NCProduct": {"scalar_": [("scalar_", {C_})], "factors_": [("factors_", {R_, A_})]},
    "Sum": {"summands_": [("summands_", {A_}), ("summands_", {R_, A_})]},
    "Tensor": {"bra_": [("ket_", set())], "ket_": [("bra_", set())],
               "bra_net_rank_": [("ket_net_rank_", set())], "ket_net_rank_": [("bra_net_rank_", set())],
               "aux_": "same", "symmetry_": "same", "braket_symmetry_": "same", "column_symmetry_": "same"},
    "Op": {"index_": "same"},
    "Operator": {"<base>": [("<base>", {R_, A_})]},
    "NormalOperator": {"<base>": [("<base>", {R_, A_})], "vacuum_": "same",
                       "ncreators_": [("ncreators_", {"neg"}), ("<base>", None)]},
    "NormalOperatorSequence": {"<base>": [("<base>", {R_, A_})], "vacuum_": "same"},
    "mbpt::Operator": {"label_generator_": [("label_generator_", {M_})],
                       "tensor_form_generator_": [("tensor_form_generator_", {A_})],
                       "qn_action_": [("qn_action_", {A_})],
                       "is_adjoint_": [("is_adjoint_", {N_})], "order_": "same", "batch_ordinals_": "same"},
}
IGN = {("mbpt::Operator", "qn_action_"): {"neg"}}
# (kind, member with assumed enumerator, enumerator, member, demanded)
ASSUMED = [
    ("Tensor", "braket_symmetry_", "Nonsymm", "label_", {M_}),
    ("Tensor", "braket_symmetry_", "Symm", "label_", set()),
    ("Tensor", "braket_symmetry_", "Conjugate", "label_", set()),
]
FAM = {"sequant::" + k for k in ROLES} | {"sequant::Complex"}
WHAT = {A_: "adjoint of each element", R_: "reversed order", C_: "complex conjugation", N_: "toggled", M_: "toggled mark",
        "neg": "complemented", "padj": "adjoint of the base part only"}


def words(ops):
    return " + ".join(WHAT[o] for o in sorted(ops)) or "unchanged"


def judge(vals, field, alts, ign=()):
    """None or what is wrong"""
    ign = S(ign)
    vals = {(s, o - ign) for s, o in vals}
    if any("?" in o for s, o in vals):
        return None             # went through something not modelled
    if any(s == "lost" for s, o in vals):
        return "can be dropped (replaced by an empty value) on a condition that does not ask about it"
    if alts == "same":
        alts = [(field, set())]
    why = None
    for src, ops in alts:
        if ops is None:         # recomputed from another part
            if any(s == src for s, o in vals) and not any(s == field for s, o in vals):
                return None
            continue
        ops = S(ops)
        got = {o for s, o in vals if s == src}
        if got == {ops} and (src == field or not any(s == field for s, o in vals)):
            return None
        if why is None:
            if not got:
                why = "is not computed from %s" % (src if src != field else "its old value")
                if src != field and any(s == field for s, o in vals):
                    why = "is not exchanged with %s" % src
            elif ops not in got:
                why = "lacks: %s" % words(ops - sorted(got, key=sorted)[0])
            else:
                why = "can be left as: %s (needed: %s)" % (
                    words(sorted(got - {ops}, key=sorted)[0]) if got - {ops} else "the old value", words(ops))
    return why


def effective(P, cls, name="adjoint"):
    """the adjoint an object of this class runs (every instantiation)"""
    seen = set()
    work = [memo.strip(cls.ty.s if cls.ty is not None else cls.q)]
    while work:
        q = work.pop(0)
        if q in seen:
            continue
        seen.add(q)
        fs = [f for f in P.byname().get(q + "::" + name, ()) if not f.p and not f.lam]
        if fs:
            return fs
        for z in P.clss:
            if z.q == q or (z.ty is not None and memo.strip(z.ty.s) == q):
                work += [memo.strip(t.s if t is not None else b) for b, t in z.bases]
    return []


def leaf(q):
    q = memo.strip(q)
    return q[9:] if q.startswith("sequant::") else q


def execute(P, f, cls, fam, assume=None):
    I = inv.Inv(P, fam, assume)
    out, v, this = I.run(f, cls=cls)
    return I, out, v, this


def kinds(P, roles):
    for c in sorted(P.clss, key=lambda c: -len(c.fields)):
        if c.dep or c.lam or not c.q.startswith("sequant"):
            continue
        k = leaf(c.q)
        if k in roles and (c.fields or c.bases):
            yield k, c


def analyse(P, roles=ROLES, assumed=ASSUMED, fam=FAM, rep=None):
    out = {}
    notes = []
    nk = nr = 0
    seen = set()
    done = set()
    for k, c in kinds(P, roles):
        ty = c.ty.s if c.ty is not None else c.q
        own = set(inv.Inv(P, fam).fields(ty))
        todo = {m: a for m, a in roles[k].items() if m in own}
        if not todo:
            continue
        fs = effective(P, c)
        if not fs:
            out.setdefault("sequant::%s|none" % k, ("%s:%s" % (c.f, c.l), "%s has no adjoint" % k))
            continue
        if k not in seen:
            nk += 1
        seen.add(k)
        for f in fs:
            if (k, f.u) in done:
                continue
            done.add((k, f.u))
            nr += one(P, k, f, ty, own, todo, assumed, fam, out, notes, rep)
    return out, nk, nr, seen, notes


def one(P, k, f, ty, own, todo, assumed, fam, out, notes, rep):
    nr = 0
    if True:
        try:
            I, st, v, this = execute(P, f, ty, fam)
        except inv.Unsup as e:
            notes.append("%s: not decided (%s)" % (k, e))
            return 0
        if st.dead:
            out.setdefault("sequant::%s|dead" % k, (f.loc(), "the adjoint of %s never completes" % k))
            return 0
        for m, alts in sorted(todo.items()):
            nr += 1
            w = judge(I.get(st, (this, m)), m, alts, IGN.get((k, m), ()))
            if rep is not None:
                rep.sample("%s.%s after %s: %s" % (k, m, memo.strip(f.q), sorted(
                    "%s %s" % (s, sorted(o)) for s, o in I.get(st, (this, m)))))
            if w:
                out.setdefault("sequant::%s|%s" % (k, m), (
                    f.loc(), "the adjoint of %s: %s %s" % (k, m.replace("<base>", "the operator string"), w)))
        for kk, am, en, m, ops in assumed:
            if kk != k or m not in own or am not in own:
                continue
            nr += 1
            try:
                I, st, v, this = execute(P, f, ty, fam, {am: en})
            except inv.Unsup as e:
                notes.append("%s: not decided (%s)" % (k, e))
                continue
            w = judge(I.get(st, (this, m)), m, [(m, ops)])
            if w:
                out.setdefault("sequant::%s|%s|%s" % (k, m, en), (
                    f.loc(), "the adjoint of %s with %s = %s: %s %s" % (k, am, en, m, w)))
    return nr


def functions(P, rep):
    """the free functions the adjoints rest on"""
    out = {}
    n = 0
    for f in P.fns.values():
        if not f.f.startswith("SeQuant") or f.lam:
            continue
        q = memo.strip(f.q)
        p0 = f.p[0]["t"] if f.p else None
        if q == "sequant::adjoint" and p0 is not None and p0.enum:
            n += 1
            for a, b in (("Create", "Annihilate"), ("Annihilate", "Create")):
                I = inv.Inv(P, FAM, {"p0": a})
                st, v, _ = I.run(f)
                if I.wholes(st, [v]) != inv.atom("=" + b):
                    out.setdefault("adjoint(Action)|" + a, (f.loc(), "the adjoint of action %s is not %s" % (a, b)))
        elif q == "sequant::Op::adjoint":
            n += 1
            for a, b in (("Create", "Annihilate"), ("Annihilate", "Create")):
                I = inv.Inv(P, FAM, {"action_": a})
                st, v, this = I.run(f)
                if I.get(st, (this, "action_")) != inv.atom("=" + b):
                    out.setdefault("Op::adjoint|" + a, (f.loc(), "the adjoint of a %s operator is not a %s operator"
                                                        % (a, b)))
        elif q == "sequant::adjoint" and p0 is not None and p0.r == "sequant::ExprPtr":
            n += 1
            I = inv.Inv(P, FAM)
            st, v, _ = I.run(f)
            o = [k for k in I.sym if I.tags[k] == "p0"]
            if I.wholes(st, [v]) != S([("p0", S([A_]))]):
                out.setdefault("adjoint(ExprPtr)", (f.loc(), "the adjoint of an expression is not computed"))
            elif o and I.get(st, (o[0], "")) != inv.atom("p0") and p0.lref and p0.const:
                out.setdefault("adjoint(ExprPtr)|arg", (f.loc(), "taking the adjoint of an expression changes the original"))
        elif q in ("sequant::conj", "sequant::Complex::conj") and f.p is not None:
            if q == "sequant::conj" and not (p0 is not None and p0.r == "sequant::Complex"):
                continue
            n += 1
            I = inv.Inv(P, FAM)
            st, v, this = I.run(f)
            pre = "p0." if q == "sequant::conj" else ""
            if v[0] == "obj":
                im = [x for x in I.fields(I.objs[v[1]]) if x.startswith("im")]
                re = [x for x in I.fields(I.objs[v[1]]) if x.startswith("re")]
                for m, ops in [(x, {"neg"}) for x in im] + [(x, set()) for x in re]:
                    w = judge(I.get(st, (v[1], m)), pre + m, [(pre + m, ops)])
                    if w:
                        out.setdefault("conj|" + m, (f.loc(), "complex conjugation: %s %s" % (m, w)))
    return out, n


def selftests(rep):
    P = selftest.program("adjoint")
    roles = {}
    fam = set()
    for c in P.clss:
        if c.q.startswith("sequant::") and not c.lam:
            k = leaf(c.q)
            fam.add("sequant::" + k)
            fs = {x["n"] for x in c.fields}
            r = {}
            if "s" in fs:
                r["s"] = [("s", {C_})]
            if "v" in fs:
                r["v"] = [("v", {R_, A_})]
            if "cj" in fs:
                r["cj"] = [("cj", {N_})]
            if "b" in fs:
                r["b"], r["k"] = [("k", set())], [("b", set())]
            if "lab" in fs:
                r["lab"] = [("lab", {M_})]
            if r:
                roles[k] = r
    out, nk, nr, seen, notes = analyse(P, roles, [], fam)
    bad = {k.split("|")[0].split("::")[1] for k in out}
    exp = {k for k in roles if k.startswith("Bad")}
    for k in sorted(roles):
        rep.selftest(k, (k in bad) == (k in exp) and not notes)


def run(pid):
    rep = Report(pid, RULE)
    selftests(rep)
    P = facts.load()
    out, nk, nr, seen, notes = analyse(P, rep=rep)
    o2, n2 = functions(P, rep)
    out.update(o2)
    rep.count("expression and operator classes", nk)
    rep.count("roles of parts decided", nr)
    rep.count("basic involutions decided", n2)
    rep.notes += notes
    rep.floor("expression and operator classes", 13)
    rep.floor("roles of parts decided", 35)
    rep.floor("basic involutions decided", 4)
    for k, (w, t) in out.items():
        rep.find(k, w, t)
    return rep.finish()
