"""C03: the forest table method equals the least fixed point after every insertion."""

import copy
import pickle

from comb_spec_searcher import CombinatorialSpecificationSearcher, StrategyPack
from comb_spec_searcher.rule_db.forest import RuleDBForest, TableMethod
from comb_spec_searcher.typing import ForestRuleKey, RuleBucket

from ..ints import Known, Node, Step
from ..oracles import lfp_terms

RUNS = {"quick": 12000, "thorough": 60000}
RULE = (
    "One run = several insertion histories of random rule hypergraphs (arity 0-4, repeated"
    " children, shifts of either sign) into TableMethod and into RuleDBForest through a real"
    " searcher, with out-of-range queries, pickle restarts and deep copies between insertions;"
    " every answer is compared with a Kleene least fixed point after every insertion."
    " Non-trivial: at least one class becomes pumping after being finite and non-zero or one"
    " class ends finite and non-zero."
)
STATES = "distinct (rules inserted, function) outcomes"
REAL = ["TableMethod", "Function", "DefaultList", "RuleDBForest.add", "Rule/ReverseRule.forest_key",
        "searcher, ClassDB, queue (second half of a run)"]
STUB = ["strategies and classes are the simulator's integer universe", "clock"]
ASSUME = ["labels are non-negative integers", "universes of at most 9 classes and 30 rules per history, in one history of eighty up to 40 classes and 120 rules"]
MUST_HIT = ["restart", "late_bigger_gap", "pumping", "finite_nonzero", "reverse_keys"]


def gen_rules(sim):
    big = sim.chance(1, 80)
    n = sim.int(12, 40) if big else sim.int(1, 8)
    smax = sim.pick([1, 1, 2, 3, 5, 40] if big else [1, 1, 2, 3, 5])
    style = sim.draw(5)
    m = sim.int(1, 3 * n + 2)
    rules = []
    for _ in range(m):
        p = sim.draw(n)
        if style == 0:  # thin cycles
            arity = sim.pick([1, 1, 1, 2, 0])
        elif style == 1:
            arity = sim.pick([2, 1, 2, 3, 0])
        elif style == 2:
            arity = sim.pick([1, 2, 3, 4])
        else:
            arity = sim.pick([1, 2, 2, 3, 1, 4, 0] + [9] * big)
        cs, ss = [], []
        for _ in range(arity):
            cs.append(sim.draw(n))
            if style == 3:
                ss.append(sim.int(0, smax))
            elif style == 4:
                ss.append(sim.int(0, 2 * smax) - smax if sim.chance(1, 3) else 0)
            else:
                ss.append(sim.int(0, 2 * smax) - smax)
        rules.append((p, tuple(cs), tuple(ss)))
    if sim.chance(1, 3):
        # a rule with a large shift arriving at some later point: the gap grows
        p, c = sim.draw(n), sim.draw(n)
        s = sim.int(smax + 1, smax + 6)
        if sim.chance(1, 2):
            s = -s
        rules.insert(sim.draw(len(rules) + 1), (p, (c,), (s,)))
        sim.probe("late_bigger_gap")
    return n, rules


def expect(rules):
    f = lfp_terms(rules)
    return {k: v for k, v in f.items() if v != 0}


def compare(sim, tb, rules, labels, prev):
    exp = expect(rules)
    got = dict(tb.function)
    sim.log("add", rules[-1] if rules else None, sorted(got.items(), key=repr))
    if got != exp:
        sim.fail(
            "function-differs",
            f"after inserting {rules}\n table method: {got}\n least fixed point: {exp}",
        )
    for lab in labels:
        pump = bool(tb.is_pumping(lab))
        want = lab in exp and exp[lab] is None
        sim.check(pump == want, "is_pumping-differs",
                  lambda: f"label {lab}: {pump} expected {want} after {rules}")
    for lab, v in prev.items():
        if v is None:
            sim.check(lab in got and got[lab] is None, "not-monotone", lambda: f"{prev} -> {got}")
        else:
            sim.check(lab in got and (got[lab] is None or got[lab] >= v), "not-monotone",
                      lambda: f"{prev} -> {got}")
    stable = {k for k, v in exp.items() if v is None}
    gots = sorted(tb.stable_subset())
    sim.check(gots == sorted(stable), "stable-subset-differs", lambda: f"{gots} vs {stable}")
    sub = sorted(
        (rk.parent, tuple(rk.children), tuple(rk.shifts)) for rk in tb.pumping_subuniverse()
    )
    wants = sorted(r for r in rules if r[0] in stable and all(c in stable for c in r[1]))
    sim.check(sub == wants, "pumping-subuniverse-differs", lambda: f"{sub} vs {wants}")
    if any(v is None for v in exp.values()):
        sim.probe("pumping")
    if any(v is not None for v in exp.values()):
        sim.probe("finite_nonzero")
        sim.nontrivial = True
    if any(v is not None and exp.get(k) is None for k, v in prev.items()):
        sim.nontrivial = True
        sim.probe("finite_then_pumping")
    sim.state((sorted(rules), sorted(exp.items(), key=repr)))
    return got


def keyed(rule, bucket=RuleBucket.NORMAL):
    return ForestRuleKey(rule[0], rule[1], rule[2], bucket)


def history(sim):
    n, rules = gen_rules(sim)
    tb = TableMethod()
    done = []
    prev = {}
    labels = list(range(n)) + [n + 3]
    # group insertions: query only now and then
    every = n > 8 or sim.chance(1, 8)
    orders = 1 + sim.draw(2)
    for o in range(orders):
        if o:
            rules = sim.shuffled(rules)
            tb = TableMethod()
            done = []
            prev = {}
            sim.probe("reordered")
        for r in rules:
            if sim.chance(1, 10):
                tb.is_pumping(sim.draw(n + 6))
            if sim.chance(1, 12):
                tb = pickle.loads(pickle.dumps(tb))
                sim.fault("restart")
            elif sim.chance(1, 25):
                tb = copy.deepcopy(tb)
                sim.fault("copy")
            tb.add_rule_key(keyed(r, sim.pick(list(RuleBucket))))
            done.append(r)
            if every and not sim.chance(1, 4 if n <= 8 else 12):
                continue
            prev = compare(sim, tb, done, labels, prev)
        compare(sim, tb, done, labels, prev)


def db_history(sim):
    """The same through RuleDBForest.add, with reverse and empty rules."""
    n, rules = gen_rules(sim)
    reverse = not sim.chance(1, 3)
    empties = set(i for i in range(1, n) if sim.chance(1, 5))
    root = Node(0)
    db = RuleDBForest(reverse=reverse)
    pack = StrategyPack([], [], [], [Known("none", [])], name="p")
    css = CombinatorialSpecificationSearcher(root, pack, ruledb=db)
    # labels in a scheduler-chosen order of first appearance
    nodes = [Node(i, i in empties) for i in range(n)]
    for i in sim.shuffled(range(n)):
        css.classdb.get_label(nodes[i])
    done = []
    prev = {}
    emptied = set()
    for idx, (p, cs, ss) in enumerate(rules):
        lab = css.classdb.get_label
        if p in empties:
            continue
        rev = sim.chance(2, 3)
        poss = True if any(c in empties for c in cs) else sim.chance(1, 2)
        if not cs:
            rule = Known(f"k{idx}", [p])(nodes[p])
        else:
            st = Step(
                f"s{idx}",
                {p: ([(c, c in empties) for c in cs], ss)},
                reversible=rev,
                two_way=rev,
                possibly_empty=poss,
                eqv=sim.chance(1, 2),
            )
            rule = st(nodes[p])
        if poss:
            for c in cs:
                if c in empties and c not in emptied:
                    emptied.add(c)
                    done.append((lab(nodes[c]), (), ()))
        lp, lcs = lab(nodes[p]), tuple(lab(nodes[c]) for c in cs)
        done.append((lp, lcs, tuple(ss)))
        if reverse and cs and rev:
            for j in range(len(cs)):
                sh = tuple([-ss[j]] + [ss[i] - ss[j] for i in range(len(cs)) if i != j])
                done.append((lcs[j], (lp,) + lcs[:j] + lcs[j + 1:], sh))
                sim.probe("reverse_keys")
        css.ruledb.add(lp, lcs, rule)
        if sim.chance(1, 10):
            css = pickle.loads(pickle.dumps(css))
            sim.fault("restart")
        db = css.ruledb
        exp = expect(done)
        for i in range(n):
            li = lab(nodes[i])
            want = li in exp and exp[li] is None
            got = bool(db.is_verified(li))
            sim.check(got == want, "is_verified-differs",
                      lambda: f"label {li} verified={got}, expected {want}, rules {done}")
        want0 = 0 in exp and exp[0] is None
        sim.check(bool(db.has_specification()) == want0, "has_specification-differs",
                  lambda: f"expected {want0}, rules {done}")
        got = dict(db.table_method.function)
        sim.log("dbadd", lp, lcs, ss, reverse, rev, sorted(got.items(), key=repr))
        sim.check(got == exp, "function-differs",
                  lambda: f"through RuleDBForest: {got} expected {exp} rules {done}")


def body(sim):
    sim.salt = sim.draw(1 << 16)
    for _ in range(1 + sim.draw(6)):
        history(sim)
    for _ in range(sim.draw(3)):
        db_history(sim)
