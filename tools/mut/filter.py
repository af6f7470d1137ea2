"""Runs the repository's tests on mutants; writes the names of the survivors.

usage: filter.py MUTDIR EVERY OFFSET WORKERS SURVIVORS_FILE"""
import glob, json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

mutdir, every, offset, workers, outf = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
names = sorted(glob.glob(mutdir + "/*.json"))[offset::every]
done = set()
if os.path.exists(outf):
    done = {l.split()[0] for l in open(outf)}
import queue
slots = queue.Queue()
for i in range(workers):
    d = f"/tmp/mw/{i}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    slots.put(d)
env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")


def one(name):
    base = os.path.basename(name)
    if base in done:
        return
    m = json.load(open(name))
    d = slots.get()
    p = f"{d}/comb_spec_searcher/{m['file']}"
    try:
        open(p, "w").write(m["src"])
        try:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60",
                                "comb_spec_searcher", "tests", "example.py"], cwd=d, env=env, timeout=150,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
        except subprocess.TimeoutExpired:
            r = "timeout"
        with open(outf, "a") as fh:
            fh.write(f"{base} {r}\n")
    finally:
        shutil.copy(f"/repo/comb_spec_searcher/{m['file']}", p)
        slots.put(d)


with ThreadPoolExecutor(workers) as ex:
    list(ex.map(one, names))
print("done", len(names))
