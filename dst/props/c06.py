"""C06: equivalence classes are exactly the strongly connected components."""

import pickle

from comb_spec_searcher.equiv_db import EquivalenceDB

from ..oracles import sccs

RUNS = {"quick": 20000, "thorough": 200000}
RULE = (
    "One run = several histories of two-way edges, one-way edges, verified marks, cycle"
    " detections, lookups and pickle restarts over 2-12 labels in a scheduler-chosen order;"
    " equivalence, verification and explanation paths of every pair are compared with plain"
    " reachability. Non-trivial: a cycle detection merged classes through one-way edges."
)
STATES = "distinct (edge set, verified marks, reported partition) triples"
REAL = ["EquivalenceDB"]
STUB = ["clock"]
ASSUME = ["at most 12 labels and about 45 operations per history, in one history of sixty up to 60 labels and 190 operations",
          "exactness is demanded at cycle detections and until the next edge; in between only"
          " soundness (no false equivalence, no false verification)"]
MUST_HIT = ["cycle_merge", "verified_before_merge", "verified_after_merge", "path_checked",
            "path_via_one_way", "restart"]


def partition(db, labels):
    res = {}
    for a in labels:
        res[a] = frozenset(b for b in labels if db.equivalent(a, b))
    return res


def check_exact(sim, db, labels, edges, marked, one_way):
    comp = sccs(labels, edges)
    names = {}
    for a in labels:
        names[a] = db[a]
    for a in labels:
        for b in labels:
            want = b in comp[a]
            got = bool(db.equivalent(a, b))
            sim.check(got == want, "equivalence-differs",
                      lambda: f"{a},{b}: reported {got}, reachability says {want}; edges {sorted(edges)}")
            sim.check((names[a] == names[b]) == want, "representative-differs",
                      lambda: f"{a},{b}: names {names[a]},{names[b]}")
        sim.check(names[a] in comp[a], "representative-foreign",
                  lambda: f"{a} is named {names[a]}")
        want = any(m in comp[a] for m in marked)
        got = bool(db.is_verified(a))
        sim.check(got == want, "verified-differs",
                  lambda: f"{a}: verified {got}, expected {want}; marks {sorted(marked)} edges {sorted(edges)}")
    return comp


def check_paths(sim, db, labels, comp, edges, one_way):
    for a in labels:
        for b in comp[a]:
            path = tuple(db.find_path(a, b))
            sim.probe("path_checked")
            sim.check(len(path) >= 1 and path[0] == a and path[-1] == b, "path-ends",
                      lambda: f"path from {a} to {b} is {path}")
            for x, y in zip(path, path[1:]):
                sim.check((x, y) in edges, "path-edge",
                          lambda: f"path {path} uses {x}->{y}, edges {sorted(edges)}")
                if (x, y) in one_way:
                    sim.probe("path_via_one_way")


def check_sound(sim, db, labels, edges, marked):
    comp = sccs(labels, edges)
    for a in labels:
        for b in labels:
            if db.equivalent(a, b):
                sim.check(b in comp[a], "false-equivalence",
                          lambda: f"{a} ~ {b} reported, edges {sorted(edges)}")
        if db.is_verified(a):
            sim.check(any(m in comp[a] for m in marked), "false-verified",
                      lambda: f"{a} reported verified, marks {sorted(marked)}")
        elif a in marked:
            sim.fail("mark-lost", f"{a} was marked verified, edges {sorted(edges)}")


def history(sim):
    big = sim.chance(1, 60)
    n = sim.int(20, 60) if big else sim.int(2, sim.pick([4, 6, 9, 12]))
    labels = sim.sample(range(0, 3 * n), n)
    db = EquivalenceDB()
    edges, one_way, two_way, marked = set(), set(), set(), set()
    style = sim.draw(4)
    w = {
        0: [("one", 6), ("two", 2), ("ver", 2), ("cyc", 2), ("look", 1), ("restart", 1)],
        1: [("one", 10), ("two", 1), ("ver", 1), ("cyc", 1), ("look", 1)],
        2: [("one", 2), ("two", 6), ("ver", 2), ("cyc", 2), ("look", 1), ("restart", 1)],
        3: [("one", 8), ("two", 1), ("ver", 1), ("cyc", 6), ("look", 1)],
    }[style]
    exact = True
    ops = sim.int(3, 12 + 3 * n)
    for step in range(ops):
        op = sim.weighted(w) if step < ops - 1 else "cyc"
        if op == "one":
            a = sim.pick(labels)
            b = sim.pick(labels)
            db.add_one_way_edge(a, b)
            if a != b:
                edges.add((a, b))
                if (a, b) not in two_way:
                    one_way.add((a, b))
            exact = False
            sim.log("one", a, b)
        elif op == "two":
            a = sim.pick(labels)
            b = sim.pick(labels)
            for m in (a, b):
                if m in marked:
                    sim.probe("verified_before_merge")
            db.add_two_way_edge(a, b)
            if a != b:
                edges.update([(a, b), (b, a)])
                two_way.update([(a, b), (b, a)])
                one_way -= {(a, b), (b, a)}
            if one_way:
                exact = False
            sim.log("two", a, b)
        elif op == "ver":
            a = sim.pick(labels)
            if len([b for b in labels if db.equivalent(a, b)]) > 1:
                sim.probe("verified_after_merge")
            db.set_verified(a)
            marked.add(a)
            sim.log("ver", a)
        elif op == "cyc":
            before = len(set(partition(db, labels).values()))
            db.connect_cycles()
            after = len(set(partition(db, labels).values()))
            if after < before:
                sim.probe("cycle_merge")
                sim.nontrivial = True
            exact = True
            sim.log("cyc", before, after)
        elif op == "look":
            a = sim.pick(labels)
            db[a]
            b = sim.pick(labels)
            db.equivalent(a, b)
            sim.log("look", a, b)
        elif op == "restart":
            other = pickle.loads(pickle.dumps(db))
            sim.check(other == db, "restored-differs", "pickle round trip not equal")
            db = other
            sim.fault("restart")
        if big and step < ops - 1 and (op != "cyc" or not sim.chance(1, 6)):
            continue
        if exact:
            comp = check_exact(sim, db, labels, edges, marked, one_way)
            check_paths(sim, db, labels, comp, edges, one_way)
            sim.state((sorted(edges), sorted(marked), sorted(map(sorted, comp.values()))))
            a = sim.pick(labels)
            got = set(db.equivalent_set(a)) & set(labels)
            sim.check(got == set(comp[a]), "equivalent-set",
                      lambda: f"equivalent_set({a}) = {sorted(got)}, expected {sorted(comp[a])}")
            for x in labels:
                for y in labels:
                    if y not in comp[x]:
                        try:
                            p = db.find_path(x, y)
                        except KeyError:
                            break
                        sim.fail("path-between-inequivalent", f"{x} {y} {p}")
        else:
            check_sound(sim, db, labels, edges, marked)


def body(sim):
    for _ in range(1 + sim.draw(6)):
        history(sim)
