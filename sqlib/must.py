"""Forward must-dataflow over a function's CFG: which facts hold on every path."""
from . import memo

LOOPS = ("for", "while", "rfor", "do")


def graph(f):
    bl = {b["i"]: b for b in f.g["bl"]}
    return bl, f.g["en"], f.g["ex"]


def preds(bl):
    out = {}
    for i, b in bl.items():
        for k, s in enumerate(b["s"]):
            if s is not None and s in bl:
                out.setdefault(s, []).append((i, k))
    return out


def loop_header(f, b):
    t = b.get("t")
    return t is not None and t >= 0 and f.N[t]["k"] in ("for", "while", "rfor") and \
        len(b["s"]) == 2


def at_exit(f, gen, edge=None, once=True):
    """facts certainly generated when f returns normally.
    gen: node -> set of facts; edge(block, index) -> set of facts;
    once: loop bodies are taken to run at least once (element-wise copying)"""
    bl, en, ex = graph(f)
    TOP = None
    inn = {i: TOP for i in bl}
    inn[en] = frozenset()
    pr = preds(bl)
    reach = {}

    def reaches(a, b):
        k = (a, b)
        if k not in reach:
            seen, st = set(), [a]
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                st += [s for s in bl[x]["s"] if s is not None and s in bl]
            for z in bl:
                reach[(a, z)] = z in seen
        return reach[k]

    def out(i, k, skip=False):
        b = bl[i]
        st = inn[i]
        if once and loop_header(f, b) and k == 1 and not skip:
            # leaving the loop: state after an iteration
            back = [(j, kk) for j, kk in pr.get(i, ()) if reaches(b["s"][0], j)
                    and b["s"][0] is not None]
            if back:
                st = TOP
                for j, kk in back:
                    o = out(j, kk, skip=(j == i))
                    if o is not TOP:
                        st = o if st is TOP else st & o
                base = inn[i]
                if st is TOP:
                    st = base
                elif base is not TOP:
                    st = st | base
        if st is TOP:
            return TOP
        g = set(st)
        for e in b["e"]:
            if isinstance(e, int):
                g |= gen.get(e, frozenset())
        if edge is not None:
            g |= set(edge(b, k))
        return frozenset(g)

    changed = True
    n = 0
    while changed and n < 50:
        changed = False
        n += 1
        for i in bl:
            if i == en:
                continue
            st = TOP
            for j, k in pr.get(i, ()):
                if bl[j].get("nr"):
                    continue
                o = out(j, k)
                if o is not TOP:
                    st = o if st is TOP else st & o
            if st != inn[i]:
                inn[i] = st
                changed = True
    return inn.get(ex) if inn.get(ex) is not None else None
