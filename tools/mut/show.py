"""show.py MUTDIR NAME...: the mutants as diffs against /repo"""
import difflib, json, sys
for n in sys.argv[2:]:
    m = json.load(open(f"{sys.argv[1]}/{n}"))
    f = f"/repo/comb_spec_searcher/{m['file']}"
    import ast
    a = ast.unparse(ast.parse(open(f).read())).splitlines()
    b = ast.unparse(ast.parse(m["src"])).splitlines()
    print("==", n, m["fn"], m["op"])
    for l in list(difflib.unified_diff(a, b, lineterm="", n=3))[2:]:
        print("  ", l)
