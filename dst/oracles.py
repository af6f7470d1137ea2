"""Small executable reference models, written without looking at the library's
algorithms: plain fixed points and reachability."""

import itertools

INF = None


def lfp_terms(rules):
    """
    The least fixed point of the 'terms computable' operator.

    rules: iterable of (parent, children, shifts).  Returns {label: value} for
    every label mentioned, None meaning infinitely many.

    Bound: with S = max(0, max shift) and N labels, the finite values of the
    least fixed point leave no gap larger than S (lowering everything finite
    above such a gap by one would give a smaller pre-fixed point), so a finite
    value is at most N*S; whatever exceeds that is infinite.
    """
    rules = list(rules)
    labels = set()
    smax = 0
    for p, cs, ss in rules:
        assert len(cs) == len(ss)
        labels.add(p)
        labels.update(cs)
        for s in ss:
            smax = max(smax, s)
    bound = len(labels) * smax
    f = {c: 0 for c in labels}
    big = float("inf")
    changed = True
    while changed:
        changed = False
        for p, cs, ss in rules:
            if f[p] == big:
                continue
            v = big
            for c, s in zip(cs, ss):
                if f[c] + s < v:
                    v = f[c] + s
            if v > bound:
                v = big
            if v > f[p]:
                f[p] = v
                changed = True
    return {c: (None if v == big else int(v)) for c, v in f.items()}


def sccs(nodes, edges):
    """Strongly connected components by plain reachability: {node: frozenset}."""
    adj = {v: set() for v in nodes}
    for a, b in edges:
        adj[a].add(b)
    reach = {}
    for v in nodes:
        seen = {v}
        stack = [v]
        while stack:
            u = stack.pop()
            for w in adj[u]:
                if w not in seen:
                    seen.add(w)
                    stack.append(w)
        reach[v] = seen
    return {
        v: frozenset(u for u in nodes if u in reach[v] and v in reach[u])
        for v in nodes
    }


def prune_gfp(rules):
    """
    Greatest fixed point: drop every rule one of whose children has no rule
    left.  rules: {label: set of children tuples}.
    """
    rules = {k: set(map(tuple, v)) for k, v in rules.items()}
    changed = True
    while changed:
        changed = False
        alive = {k for k, v in rules.items() if v}
        for k in list(rules):
            good = {e for e in rules[k] if all(c in alive for c in e)}
            if good != rules[k]:
                rules[k] = good
                changed = True
    return {k: v for k, v in rules.items() if v}


def derivable(rules, root):
    """Bottom-up derivable labels, with `root` allowed as an assumption.
    Returns (set derivable, root really derivable)."""
    known = set()
    changed = True
    while changed:
        changed = False
        for k, v in rules.items():
            if k in known:
                continue
            for e in v:
                if all(c in known or c == root for c in e):
                    known.add(k)
                    changed = True
                    break
    return known, root in known


def min_tree_size(rules, root, limit=200000):
    """
    Minimum number of rules (one per label) of a closed rule choice containing
    root, by branch and bound over partial choices; None if there is none or
    if the limit is reached (second value False).
    """
    rules = prune_gfp(rules)
    if root not in rules:
        return None, True
    opts = {
        k: sorted({tuple(sorted(set(e))) for e in v}, key=lambda e: (len(e), e))
        for k, v in rules.items()
    }
    # only inclusion-minimal child sets matter for the size
    for k, v in opts.items():
        opts[k] = [e for e in v if not any(set(f) < set(e) for f in v)]
    best = [len(rules) + 1]
    count = [0]

    def rec(chosen, todo):
        count[0] += 1
        if count[0] > limit:
            raise OverflowError
        if len(chosen) + len(todo) >= best[0]:
            return
        if not todo:
            best[0] = len(chosen)
            return
        k = min(todo, key=lambda t: (len(opts[t]), t))
        for e in opts[k]:
            new = (todo | set(e)) - chosen - {k}
            rec(chosen | {k}, new)

    try:
        rec(frozenset(), {root})
    except OverflowError:
        return None, False
    return best[0], True


def productive(keys, root):
    return lfp_terms(keys).get(root, 0) is None


def powerset(xs):
    xs = list(xs)
    return itertools.chain.from_iterable(
        itertools.combinations(xs, r) for r in range(len(xs) + 1)
    )


def min_tree_nodes(rules, root, limit=60000):
    """
    Minimum number of nodes of a proof tree: 1 + the sum of the arities of the
    chosen rules, over all closed choices of one rule per label containing
    root.  Returns (size or None, exact?).
    """
    rules = prune_gfp(rules)
    if root not in rules:
        return None, True
    opts = {k: sorted(v, key=lambda e: (len(e), e)) for k, v in rules.items()}
    for k, v in opts.items():
        opts[k] = [
            e for e in v if not any(set(f) <= set(e) and len(f) < len(e) for f in v)
        ]
    least = {k: min(len(e) for e in v) for k, v in opts.items()}
    best = [None]
    count = [0]

    def rec(chosen, todo, cost):
        count[0] += 1
        if count[0] > limit:
            raise OverflowError
        if best[0] is not None and cost + sum(least[t] for t in todo) >= best[0]:
            return
        if not todo:
            best[0] = cost
            return
        k = min(todo, key=lambda t: (len(opts[t]), t))
        for e in opts[k]:
            new = (todo | set(e)) - chosen - {k}
            rec(chosen | {k}, new, cost + len(e))

    try:
        rec(frozenset(), frozenset({root}), 1)
    except OverflowError:
        return best[0], False
    return best[0], True
