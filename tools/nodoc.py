"""print a source file without docstrings (reading aid)"""
import ast, sys
src = open(sys.argv[1]).read().split("\n")
drop = set()
for n in ast.walk(ast.parse("\n".join(src))):
    if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
            and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
        drop |= set(range(n.body[0].lineno, n.body[0].end_lineno + 1))
for k, l in enumerate(src, 1):
    if k not in drop:
        print(k, l)
