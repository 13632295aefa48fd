"""Systematic mutants of a source file.  mutate.py FILE -> number of mutants; functions used by campaign.py"""
import ast, copy, sys

SWAP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
        ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}


def is_log(n):
  if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)
  t = ast.unparse(n.value.func)
  return t.startswith(("logger.", "logging.", "print", "traceback."))


def sites(tree):
  "(description, function which mutates the tree in place)"
  skip = set()
  for n in ast.walk(tree):
    if isinstance(n, ast.stmt) and is_log(n):
      skip.update(id(x) for x in ast.walk(n))
    if isinstance(n, ast.FunctionDef) and n.name in ("__str__", "__repr__", "main", "unit_tests"):
      skip.update(id(x) for x in ast.walk(n))
    if isinstance(n, (ast.Raise, ast.Assert)):
      for c in ast.walk(n):
        if isinstance(c, ast.Constant) and isinstance(c.value, str):
          skip.add(id(c))
    if isinstance(n, ast.If) and ast.unparse(n.test).startswith("__name__"):
      skip.update(id(x) for x in ast.walk(n))
  res = []
  infun = set()
  for f in ast.walk(tree):
    if isinstance(f, ast.FunctionDef):
      infun.update(id(x) for x in ast.walk(f))
  for n in ast.walk(tree):
    if id(n) in skip or id(n) not in infun:
      continue
    ln = getattr(n, "lineno", 0)
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP:
      def f(n=n):
        n.ops[0] = SWAP[type(n.ops[0])]()
      res.append((ln, "swap " + ast.unparse(n), f))
    if isinstance(n, ast.BoolOp):
      def f(n=n):
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
      res.append((ln, "and/or " + ast.unparse(n), f))
      for k in range(len(n.values)):
        def f(n=n, k=k):
          n.values.pop(k)
          if len(n.values) == 1:
            n.values.append(n.values[0])
        res.append((ln, "drop %d of %s" % (k, ast.unparse(n)), f))
    if isinstance(n, (ast.If, ast.IfExp)) and not isinstance(n.test, ast.Compare):
      def f(n=n):
        n.test = ast.UnaryOp(ast.Not(), n.test)
      res.append((ln, "negate " + ast.unparse(n.test), f))
    if isinstance(n, ast.Constant) and type(n.value) is bool:
      def f(n=n):
        n.value = not n.value
      res.append((ln, "flip %s" % n.value, f))
    elif isinstance(n, ast.Constant) and type(n.value) is int:
      def f(n=n):
        n.value += 1
      res.append((ln, "%d+1" % n.value, f))
    for field in ("body", "orelse", "finalbody"):
      b = getattr(n, field, None)
      if isinstance(b, list) and not isinstance(n, (ast.ClassDef, ast.Module)):
        for k, st in enumerate(b):
          if id(st) in skip or isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Pass, ast.If, ast.For, ast.While, ast.Try, ast.With, ast.Global, ast.Import, ast.ImportFrom)):
            continue
          def f(b=b, k=k):
            b[k] = ast.Pass()
          res.append((st.lineno, "del " + ast.unparse(st).split("\n")[0][:80], f))
  return res


def mutants(text):
  n = len(sites(ast.parse(text)))
  for k in range(n):
    tree = ast.parse(text)
    ln, what, f = sites(tree)[k]
    f()
    ast.fix_missing_locations(tree)
    try:
      yield k, ln, what, ast.unparse(tree)
    except Exception:
      pass


if __name__ == "__main__":
  for p in sys.argv[1:]:
    print(p, len(sites(ast.parse(open(p).read()))))
