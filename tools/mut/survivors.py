"""Runs the property checks on the mutants the tests do not notice.

usage: survivors.py MUTDIR SURVIVORS_FILE OUT [slots=2] [wall=30] [only=REGEX] [base=COMMIT]

With base=, the mutants were made from the files of that commit of /repo and are merged
into the present ones."""
import json, os, re, shutil, subprocess, sys, time, queue
from concurrent.futures import ThreadPoolExecutor

mutdir, surv, outf = sys.argv[1:4]
opt = dict(a.split("=") for a in sys.argv[4:])
slots_n, wall = int(opt.get("slots", 2)), opt.get("wall", "30")
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
MAP = {
    "class_queue": "C16 C17", "class_db": "C15 C04", "equiv_db": "C06 C05",
    "tree_searcher": "C05 C13 C02", "rule_db/base": "C05 C14 C02",
    "rule_db/forest": "C03 C11 C04 C19", "rule_db/forget": "C14",
    "comb_spec_searcher": "C04 C17 C01 C16", "bijection": "C13 C18", "isomorphism": "C12 C13 C18",
    "specification": "C01 C02 C19 C07 C18 C08", "specification_extrator": "C02 C13 C11",
    "rule": "C01 C02 C07 C08 C12 C18", "strategy": "C04 C02 C07 C18 C01",
    "strategy_pack": "C18", "constructor": "C01 C07 C08 C12", "utils": "C01 C07 C17",
    "combinatorial_class": "C18 C01", "typing": "C03 C11",
}


def props(f):
    best = [k for k in MAP if k in f]
    if not best:
        return []
    return MAP[max(best, key=len)].split()


SKIP = re.compile(r"__repr__|__str__|get_equations|get_genf|sympy|get_eq_symbol|get_op_symbol|to_html|show|status|formal_step|pretty")
done = set()
if os.path.exists(outf):
    done = {l.split()[0] for l in open(outf)}
slots = queue.Queue()
for i in range(slots_n):
    d = f"/tmp/ms/{i}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    slots.put(d)


def write(p, m):
    if "base" not in opt:
        open(p, "w").write(m["src"])
        return
    old = subprocess.run(["git", "-C", "/repo", "show", f"{opt['base']}:comb_spec_searcher/{m['file']}"],
                         capture_output=True, text=True, check=True).stdout
    open(p + ".old", "w").write(old)
    open(p + ".mut", "w").write(m["src"])
    subprocess.run(["git", "merge-file", p, p + ".old", p + ".mut"], check=True)


def one(base):
    m = json.load(open(f"{mutdir}/{base}"))
    ps = props(m["file"])
    if not ps or SKIP.search(str(m["fn"])):
        res = "SKIP"
    else:
        d = slots.get()
        p = f"{d}/comb_spec_searcher/{m['file']}"
        res = "MISSED"
        try:
            write(p, m)
            env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", VERIF_REPO=d)
            for pid in ps:
                t = time.time()
                try:
                    r = subprocess.run(["bash", "check.sh", pid, f"wall={wall}", f"workers={8 // slots_n}"], cwd=HERE,
                                       env=env, timeout=300, capture_output=True, text=True)
                    rc, out = r.returncode, r.stdout + r.stderr
                except subprocess.TimeoutExpired:
                    rc, out = "timeout", ""
                if rc != 0:
                    res = f"{pid} rc={rc} {time.time() - t:.0f}s " + " ".join(
                        l[:150] for l in out.splitlines() if "VIOLATION" in l or "rror" in l)[:250]
                    if rc == 1:
                        break
        except subprocess.CalledProcessError:
            res = "SKIP (the lines have changed since)"
        finally:
            shutil.copy(f"/repo/comb_spec_searcher/{m['file']}", p)
            slots.put(d)
    with open(outf, "a") as fh:
        fh.write(f"{base} {m['file']}:{m['line']} {m['fn']} {m['op']} :: {res}\n")


while True:
    names = [l.split()[0] for l in open(surv) if l.split()[1] == "0"]
    todo = [n for n in names if n not in done and re.search(opt.get("only", ""), n)]
    if not todo:
        break
    done |= set(todo)
    with ThreadPoolExecutor(slots_n) as ex:
        list(ex.map(one, todo))
print("done")
