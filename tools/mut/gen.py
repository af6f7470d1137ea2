"""Generates single-site mutants of the library (a survey of blind spots, not a check).

usage: gen.py OUTDIR FILE...   (files relative to comb_spec_searcher/)
Every mutant is OUTDIR/NNNN.json: {file, line, op, old, new_source_of_file_diff}
"""
import ast, copy, hashlib, json, os, sys

SKIP_FUNCS = {"__repr__", "__str__", "status", "show", "log_spec", "to_html_representation", "get_operation_str",
              "get_op_symbol", "get_eq_symbol", "formal_step", "_log_status", "_time_status", "share", "__eq__x",
              "logger", "get_equation", "get_equations", "get_genf", "get_initial_conditions", "get_maple_equations",
              "get_pinter_equations", "get_bivariate", "get_polynomial", "get_function", "sanity_check",
              "_sanity_check_count", "_sanity_check_objects", "_sanity_check_random_sample", "get_eq", "maple_equations", "equation_generator"}
CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult}


def sites(tree):
    """yields (node, list of (op name, function mutating a fresh copy's same node))"""
    out = []

    def walk(node, fn, doc):
        if isinstance(node, (ast.FunctionDef,)):
            if node.name in SKIP_FUNCS:
                return
            fn = node.name
            # annotations and decorators are not mutated
            for s in node.body:
                walk(s, fn, doc)
            return
        if isinstance(node, (ast.Assert, ast.Import, ast.ImportFrom)):
            return
        if isinstance(node, ast.AnnAssign):
            if node.value is not None:
                walk(node.value, fn, doc)
            return
        if isinstance(node, ast.Raise):
            out.append((node, fn, "raise-removed"))
            return
        if isinstance(node, ast.Expr):
            if isinstance(node.value, ast.Constant):
                return
            if "logger" in ast.dump(node.value)[:200]:
                return
            if fn:
                out.append((node, fn, "stmt-removed"))
        if fn:
            if isinstance(node, ast.Compare) and len(node.ops) == 1:
                out.append((node, fn, "cmp"))
            if isinstance(node, ast.BinOp) and type(node.op) in BIN:
                out.append((node, fn, "bin"))
            if isinstance(node, ast.BoolOp):
                out.append((node, fn, "boolflip"))
                for i in range(len(node.values)):
                    out.append((node, fn, f"booldrop{i}"))
            if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
                out.append((node, fn, "not-removed"))
            if isinstance(node, ast.Constant) and isinstance(node.value, bool):
                out.append((node, fn, "bool-const"))
            elif isinstance(node, ast.Constant) and isinstance(node.value, int):
                out.append((node, fn, "int+1"))
                out.append((node, fn, "int-1"))
            if isinstance(node, (ast.Continue, ast.Break)):
                out.append((node, fn, "jump-removed"))
            if isinstance(node, (ast.AugAssign,)):
                out.append((node, fn, "aug-removed"))
            if isinstance(node, ast.Assign) and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in node.targets):
                out.append((node, fn, "assign-removed"))
            if isinstance(node, ast.If):
                out.append((node, fn, "if-true"))
                out.append((node, fn, "if-false"))
            if isinstance(node, ast.IfExp):
                out.append((node, fn, "ifexp-body"))
                out.append((node, fn, "ifexp-else"))
            if isinstance(node, ast.comprehension) and node.ifs:
                out.append((node, fn, "comp-if-removed"))
            if isinstance(node, ast.Call) and len(node.args) == 2 and not node.keywords:
                out.append((node, fn, "swap-args"))
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Name):
                n = node.func.id
                if n in ("sorted", "set", "reversed", "tuple", "list", "dict", "abs") and len(node.args) == 1:
                    out.append((node, fn, "call-unwrapped"))
                if n in ("max", "min", "any", "all"):
                    out.append((node, fn, "call-dual"))
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
                if node.func.attr in ("append", "appendleft", "pop", "popleft"):
                    out.append((node, fn, "deque-end"))
        for c in ast.iter_child_nodes(node):
            walk(c, fn, doc)

    for s in tree.body:
        walk(s, None, None)
    return out


DUAL = {"max": "min", "min": "max", "any": "all", "all": "any", "append": "appendleft", "appendleft": "append",
        "pop": "popleft", "popleft": "pop"}


def apply(tree, idx):
    node, fn, op = sites(tree)[idx]

    class T(ast.NodeTransformer):
        def visit(self, n):
            if n is node:
                if op in ("raise-removed", "stmt-removed", "jump-removed", "aug-removed", "assign-removed"):
                    return ast.copy_location(ast.Pass(), n)
                if op == "cmp":
                    n.ops = [CMP[type(n.ops[0])][0]()]
                    return n
                if op == "bin":
                    n.op = BIN[type(n.op)]()
                    return n
                if op == "boolflip":
                    n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
                    return n
                if op.startswith("booldrop"):
                    n.values.pop(int(op[8:]))
                    return n.values[0] if len(n.values) == 1 else n
                if op == "not-removed":
                    return n.operand
                if op == "bool-const":
                    n.value = not n.value
                    return n
                if op == "int+1":
                    n.value += 1
                    return n
                if op == "int-1":
                    n.value -= 1
                    return n
                if op == "if-true":
                    n.test = ast.Constant(True)
                    return n
                if op == "if-false":
                    n.test = ast.Constant(False)
                    return n
                if op == "ifexp-body":
                    return n.body
                if op == "ifexp-else":
                    return n.orelse
                if op == "comp-if-removed":
                    n.ifs = []
                    return n
                if op == "swap-args":
                    n.args = n.args[::-1]
                    return n
                if op == "call-unwrapped":
                    return n.args[0]
                if op == "call-dual":
                    n.func.id = DUAL[n.func.id]
                    return n
                if op == "deque-end":
                    n.func.attr = DUAL[n.func.attr]
                    return n
            return self.generic_visit(n)

    new = T().visit(tree)
    ast.fix_missing_locations(new)
    return new, node, fn, op


def main():
    out, files = sys.argv[1], sys.argv[2:]
    os.makedirs(out, exist_ok=True)
    seen = set()
    n = 0
    for f in files:
        src = open("/repo/comb_spec_searcher/" + f).read()
        count = len(sites(ast.parse(src)))
        base = ast.unparse(ast.parse(src))
        for i in range(count):
            t = ast.parse(src)
            node = sites(t)[i][0]
            old = ast.unparse(node)[:160] if not isinstance(node, ast.comprehension) else "comp"
            line = getattr(node, "lineno", 0)
            new, node, fn, op = apply(t, i)
            s = ast.unparse(new)
            h = hashlib.sha1(s.encode()).hexdigest()[:8]
            if s == base or h in seen:
                continue
            seen.add(h)
            json.dump({"file": f, "line": line, "fn": fn, "op": op, "old": old, "src": s},
                      open(f"{out}/{f.replace('/', '_')[:-3]}-{line:04d}-{h}.json", "w"))
            n += 1
    print(n)


main()
