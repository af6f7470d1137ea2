"""C16: the work queue schedules every class completely, once, in order, and terminates."""

import pickle

from comb_spec_searcher import AtomStrategy, StrategyPack
from comb_spec_searcher.class_queue import DefaultQueue
from comb_spec_searcher.exception import NoMoreClassesToExpandError

from ..ints import Step

RUNS = {"quick": 20000, "thorough": 200000}
RULE = (
    "One run = several histories of add / stop-yielding / verified / not-inferrable / next /"
    " do_level (consumed wholly, or abandoned, with operations interleaved between its"
    " packets) / pickle restart on queues with 0-3 inferral, 0-3 initial and 0-3 expansion"
    " sets, then drained; the stream of packets is checked against the contract of the"
    " queue kept by a reference bookkeeping. Non-trivial: a mark or an addition hit a label"
    " whose work was partly handed out."
)
STATES = "distinct (pack shape, per-label progress, stopped, not-inferrable) states"
REAL = ["DefaultQueue", "StrategyPack"]
STUB = ["strategies: named table rows", "the searcher: a scheduler issuing the queue calls"]
ASSUME = ["at most 8 labels and about 80 operations per history",
          "strategies of a pack are pairwise different",
          "the level counter is read through levels_completed"]
MUST_HIT = ["exhausted", "revived_after_exhaustion", "level_error", "level_done", "level_abandoned",
            "stop_midway", "readd_stopped", "readd_midway", "not_inferrable_first", "restart",
            "no_inferral_no_initial", "no_expansion"]


def history(sim):
    n_inf, n_ini = sim.draw(4), sim.draw(4)
    sets = [sim.int(1, 3) for _ in range(sim.draw(4))]
    if not n_inf and not n_ini:
        sim.probe("no_inferral_no_initial")
    if not sets:
        sim.probe("no_expansion")
    names = iter(range(1000))
    mk = lambda: Step(f"s{next(names)}", {})
    inf = [mk() for _ in range(n_inf)]
    ini = [mk() for _ in range(n_ini)]
    exp = [[mk() for _ in range(k)] for k in sets]
    pack = StrategyPack(initial_strats=ini, inferral_strats=inf, expansion_strats=exp,
                        ver_strats=[AtomStrategy()], name="q")
    q = DefaultQueue(pack)
    shape = (n_inf, n_ini, tuple(sets))
    # stage of each strategy: 0 inferral, 1.. initial, then the sets
    stage = {s.name: ("ini", i) for i, s in enumerate(ini)}
    for j, ss in enumerate(exp):
        for s in ss:
            stage[s.name] = ("exp", j)
    full_exp = [frozenset(s.name for s in ss) for ss in exp]
    added, stopped, noinf = set(), set(), set()
    given = {}  # label -> list of names handed out ("INF" for the inferral packet)
    labels = sim.sample(range(90), sim.int(9, 60)) if sim.chance(1, 60) else \
        sim.sample(range(20), sim.int(1, 8))

    def complete(l):
        g = given.get(l, [])
        want = len(ini) + sum(sets)
        return len([x for x in g if x != "INF"]) == want

    def packet(wp):
        l, strats, inferral = wp.label, tuple(wp.strategies), wp.inferral
        sim.log("packet", l, [s.name for s in strats], inferral)
        sim.check(l in added, "unknown-label", lambda: f"work for {l} which was never added")
        sim.check(l not in stopped, "work-after-stop", lambda: f"work for stopped label {l}: {strats}")
        g = given.setdefault(l, [])
        if inferral:
            sim.check([s.name for s in strats] == [s.name for s in inf] and inf, "inferral-packet",
                      lambda: f"inferral packet {strats}")
            sim.check("INF" not in g, "handed-out-twice", lambda: f"inferral of {l} twice: {g}")
            sim.check(not g, "inferral-late", lambda: f"inferral of {l} after {g}")
            sim.check(l not in noinf, "inferral-of-not-inferrable", lambda: f"label {l}")
            g.append("INF")
            return
        sim.check(len(strats) >= 1, "empty-packet", lambda: f"{wp}")
        for s in strats:
            nm = s.name
            sim.check(nm in stage, "foreign-strategy", lambda: f"{nm}")
            sim.check(nm not in g, "handed-out-twice", lambda: f"{nm} for {l} twice: {g}")
            kind, j = stage[nm]
            if inf and l not in noinf:
                sim.check("INF" in g, "inferral-missing", lambda: f"{nm} for {l} before its inferral: {g}")
            if kind == "ini":
                prev = [x.name for x in ini[:j]]
                sim.check(all(p in g for p in prev), "initial-order", lambda: f"{nm} for {l}, {g}")
                sim.check(not any(stage.get(x, ("", 0))[0] == "exp" for x in g), "initial-late",
                          lambda: f"{nm} for {l} after {g}")
            else:
                sim.check(all(x.name in g for x in ini), "initial-missing",
                          lambda: f"{nm} for {l}, given {g}")
                for jj in range(j):
                    sim.check(full_exp[jj] <= set(g), "set-order", lambda: f"{nm} for {l}, given {g}")
                sim.check(not any(stage.get(x, ("", 0)) > ("exp", j) for x in g if stage.get(x, ("", 0))[0] == "exp"),
                          "set-order", lambda: f"{nm} for {l}, given {g}")
            g.append(nm)

    def drained(why):
        for l in sorted(added - stopped):
            g = given.get(l, [])
            if inf and l not in noinf:
                sim.check("INF" in g, "work-lost", lambda: f"{why}: inferral of {l} never handed out; {g}")
            for s in ini:
                sim.check(s.name in g, "work-lost", lambda: f"{why}: {s.name} for {l} never; {g}")
            for ss in exp:
                for s in ss:
                    sim.check(s.name in g, "work-lost", lambda: f"{why}: {s.name} for {l} never; {g}")

    exhausted = [False]

    def step():
        try:
            wp = next(q)
        except StopIteration:
            sim.probe("exhausted")
            drained("exhausted")
            exhausted[0] = True
            return False
        sim.check(not exhausted[0], "work-after-exhaustion", lambda: f"{wp}")
        packet(wp)
        return True

    def op_mark():
        op = sim.weighted([("add", 6), ("stop", 2), ("ver", 2), ("noinf", 2)])
        l = sim.pick(labels)
        partly = bool(given.get(l)) and not complete(l)
        if partly:
            sim.nontrivial = True
        if op == "add":
            if l in stopped:
                sim.probe("readd_stopped")
            elif partly:
                sim.probe("readd_midway")
            q.add(l)
            if exhausted[0] and l not in stopped and not complete(l):
                sim.probe("revived_after_exhaustion")
            exhausted[0] = False
            added.add(l)
        elif op == "stop":
            if partly:
                sim.probe("stop_midway")
            q.set_stop_yielding(l)
            stopped.add(l)
        elif op == "ver":
            q.set_verified(l)
            stopped.add(l)
        else:
            q.set_not_inferrable(l)
            if l not in given:
                if l not in stopped:
                    sim.probe("not_inferrable_first")
                noinf.add(l)
        sim.log(op, l)

    def state():
        sim.state((shape, tuple((l, len(given.get(l, ())), l in added, l in stopped, l in noinf)
                                for l in sorted(labels))))

    ops = sim.int(4, sim.pick([15, 40, 80]))
    for _ in range(ops):
        op = sim.weighted([("mark", 8), ("next", 8), ("level", 2), ("restart", 1), ("status", 1)])
        if op == "mark":
            op_mark()
        elif op == "next":
            step()
        elif op == "level":
            start = q.levels_completed
            mode = sim.draw(3)  # 0 drain it, 1 interleave marks, 2 abandon
            left = sim.draw(12)
            gen = q.do_level()
            advanced = False
            while True:
                try:
                    wp = next(gen)
                except StopIteration:
                    sim.check(q.levels_completed > start, "level-ends-early",
                              lambda: f"do_level ended at level {q.levels_completed}, started at {start}")
                    sim.probe("level_done")
                    break
                except NoMoreClassesToExpandError:
                    sim.check(q.levels_completed == start, "level-error-after-advance", "")
                    sim.probe("level_error")
                    drained("do_level error")
                    exhausted[0] = True
                    break
                sim.check(not advanced, "level-runs-on",
                          lambda: f"packet {wp} after the level counter advanced")
                sim.check(not exhausted[0], "work-after-exhaustion", lambda: f"{wp}")
                packet(wp)
                advanced = q.levels_completed != start
                if mode == 1:
                    for _ in range(sim.draw(3)):
                        op_mark()
                if mode == 2:
                    if left == 0:
                        sim.probe("level_abandoned")
                        if sim.draw(2):
                            gen.close()
                        break
                    left -= 1
        elif op == "restart":
            new = pickle.loads(pickle.dumps(q))
            sim.check(new == q, "restored-differs", "pickle round trip of the queue not equal")
            q = new
            sim.fault("restart")
        else:
            q.status()
        state()
    # no more faults or marks: the queue must drain within the work that exists
    budget = (len(labels) + 2) * (3 + len(ini) + sum(sets)) + 10
    for _ in range(budget):
        if not step():
            break
    else:
        sim.fail("never-exhausted", f"still handing out work after {budget} packets")
    for _ in range(sim.int(1, 3)):
        sim.check(step() is False, "exhaustion-not-stable", "")
    if sim.draw(2):
        l = sim.pick(labels)
        q.add(l)
        added.add(l)
        exhausted[0] = False
        for _ in range(budget):
            if not step():
                break
        else:
            sim.fail("never-exhausted", "after revival")


def body(sim):
    for _ in range(1 + sim.draw(5)):
        history(sim)
