""" Jython: prints the lines on which statements inside functions start, as JSON """
import ast, json, sys
out = {}
for f in sys.argv[1:]:
    tree = ast.parse(open(f).read().replace('\r\n', '\n'))
    lines = set()
    for fn in ast.walk(tree):
        if isinstance(fn, ast.FunctionDef):
            for n in ast.walk(fn):
                if n is not fn and isinstance(n, ast.stmt) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Str)):
                    lines.add(n.lineno)
    out[f] = sorted(lines)
print json.dumps(out)
