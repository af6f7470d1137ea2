"""A rule database fed with bare labels: no classes, no strategies."""
import logging
import logzero
logzero.loglevel(logging.CRITICAL)
from itertools import product

from comb_spec_searcher.rule_db.base import RuleDB
from comb_spec_searcher.strategies.rule import VerificationRule


class Rule:
    possibly_empty = False

    def __init__(self, children, two_way):
        self.children, self.two, self.strategy = children, two_way, object()

    def is_two_way(self):
        return self.two


class Searcher:
    classdb = None

    class strategy_pack:
        iterative = False

    def __init__(self, root):
        self.start_label = root


def make(root, rules, iterative=False, db=RuleDB):
    """rules: (start, ends, two_way)"""
    res = db()
    s = Searcher(root)
    s.strategy_pack = type("Pack", (), {"iterative": iterative})
    res.link_searcher(s)
    for start, ends, two in rules:
        res.add(start, tuple(ends), Rule(tuple(ends), two))
    return res


def collapse(rules):
    """Rules between strongly connected components of the unary rules."""
    labels = {l for s, e, _ in rules for l in (s, *e)}
    edges = {(s, e[0]) for s, e, _ in rules if len(e) == 1}
    edges |= {(e[0], s) for s, e, t in rules if len(e) == 1 and t}
    reach = {l: {l} for l in labels}
    changed = True
    while changed:
        changed = False
        for a, b in edges:
            new = reach[b] - reach[a]
            for l in labels:
                if a in reach[l] and not reach[b] <= reach[l]:
                    reach[l] |= reach[b]
                    changed = True
    rep = {l: min(m for m in labels if m in reach[l] and l in reach[m]) for l in labels}
    res = {}
    for s, e, _ in rules:
        if len(e) == 1 and rep[s] == rep[e[0]]:
            continue
        res.setdefault(rep[s], set()).add(tuple(sorted(rep[x] for x in e)))
    return rep, res


def survivors(rules):
    alive = dict((k, set(v)) for k, v in rules.items())
    changed = True
    while changed:
        changed = False
        for k in list(alive):
            alive[k] = {r for r in alive[k] if all(x in alive for x in r)}
            if not alive[k]:
                del alive[k]
                changed = True
    return alive


def iterable(rules, root):
    """Labels with a finite derivation in which only the root may be assumed."""
    ok = {root}
    got = set()
    changed = True
    while changed:
        changed = False
        for k, v in rules.items():
            if k not in got and any(all(x in ok for x in r) for r in v):
                got.add(k)
                ok.add(k)
                changed = True
    return got


def sizes(alive, root):
    """Sizes of all proof trees: one rule per label, a met label is a leaf."""
    best = None
    labels = sorted(alive)
    for choice in product(*(sorted(alive[l]) for l in labels)):
        rule = dict(zip(labels, choice))
        seen, todo, n = set(), [root], 0
        while todo:
            l = todo.pop()
            n += 1
            if l not in seen:
                seen.add(l)
                todo.extend(rule[l])
        best = n if best is None or n < best else best
    return best
