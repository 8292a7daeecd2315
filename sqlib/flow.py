"""Generic forward dataflow over a function's CFG."""


def blocks(f):
    return {b["i"]: b for b in f.g["bl"]}


def solve(f, start, transfer, edge, join, limit=60):
    """start: state at entry; transfer(node, state, report) -> state;
    edge(block, k, state) -> state or None (edge cannot be taken);
    returns block id -> state at its entry"""
    bl = blocks(f)
    en = f.g["en"]
    inn = {en: start}
    work = [en]
    n = 0
    seen = {}
    while work:
        i = work.pop(0)
        seen[i] = seen.get(i, 0) + 1
        if seen[i] > limit:
            continue
        b = bl[i]
        st = inn[i]
        for e in b["e"]:
            if isinstance(e, int):
                st = transfer(e, st, False)
        if b.get("nr"):
            continue
        for k, s in enumerate(b["s"]):
            if s is None or s not in bl:
                continue
            o = edge(b, k, st)
            if o is None:
                continue
            new = o if s not in inn else join(inn[s], o)
            if s not in inn or new != inn[s]:
                inn[s] = new
                if s not in work:
                    work.append(s)
    return inn


def replay(f, inn, transfer):
    """run the transfer function once per reachable block with report=True"""
    for b in f.g["bl"]:
        if b["i"] in inn:
            st = inn[b["i"]]
            for e in b["e"]:
                if isinstance(e, int):
                    st = transfer(e, st, True)


def atoms(f, b):
    """the branch condition of a block: (condition node, negated) with leading ! removed"""
    c = b.get("tc")
    if c is None or c < 0 or len(b["s"]) != 2:
        return None
    neg = False
    while True:
        nd = f.N[c]
        if nd["k"] == "un" and nd.get("o") == "!":
            neg = not neg
            c = nd["c"][0]
        elif nd["k"] == "cast" and nd.get("c"):
            c = nd["c"][0]
        elif nd["k"] == "call" and nd.get("o") == "!" and nd.get("c"):
            neg = not neg
            c = nd["c"][-1]
        elif nd["k"] == "bin" and nd.get("o") in ("&&", "||"):
            c = nd["c"][1]          # the left operand is decided in an earlier block
        else:
            return c, neg
