"""Small behaviour-changing edits of one function (for measuring detection)."""
import ast, copy, random
from refac import blocks, Repl, names_in, parents


def m_binop(fn, mod, rng):
    sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv}
    c = [n for n in ast.walk(fn) if isinstance(n, ast.BinOp) and type(n.op) in sw and not isinstance(n.left, (ast.Constant, ast.JoinedStr)) ]
    c = [n for n in c if not any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(n))]
    if not c: return False
    n = rng.choice(c); n.op = sw[type(n.op)](); return True


def m_cmp(fn, mod, rng):
    sw = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
    c = [n for n in ast.walk(fn) if isinstance(n, ast.Compare) and type(n.ops[0]) in sw]
    if not c: return False
    n = rng.choice(c); n.ops[0] = sw[type(n.ops[0])](); return True


def m_num(fn, mod, rng):
    c = [n for n in ast.walk(fn) if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool)]
    if not c: return False
    n = rng.choice(c); n.value = n.value + 1 if isinstance(n.value, int) else n.value * 2 + (1.0 if n.value == 0 else 0); return True


def m_bool(fn, mod, rng):
    c = [n for n in ast.walk(fn) if isinstance(n, ast.Constant) and isinstance(n.value, bool)]
    if not c: return False
    n = rng.choice(c); n.value = not n.value; return True


def m_dropkw(fn, mod, rng):
    c = [n for n in ast.walk(fn) if isinstance(n, ast.Call) and any(k.arg for k in n.keywords)]
    if not c: return False
    n = rng.choice(c); k = rng.choice([k for k in n.keywords if k.arg]); n.keywords.remove(k); return True


def m_swapargs(fn, mod, rng):
    c = [n for n in ast.walk(fn) if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args)]
    if not c: return False
    n = rng.choice(c); i = rng.randrange(len(n.args) - 1)
    if ast.dump(n.args[i]) == ast.dump(n.args[i + 1]): return False
    n.args[i], n.args[i + 1] = n.args[i + 1], n.args[i]; return True


def m_negif(fn, mod, rng):
    c = [n for n in ast.walk(fn) if isinstance(n, (ast.If, ast.IfExp))]
    if not c: return False
    n = rng.choice(c); n.test = ast.UnaryOp(ast.Not(), n.test); return True


def m_dropstmt(fn, mod, rng):
    c = []
    for o, f, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.AugAssign, ast.Raise)) or isinstance(s, ast.Assign) and isinstance(s.targets[0], (ast.Subscript, ast.Attribute)) \
                    or isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and getattr(s.value.func, "id", "") != "print" and "warn" not in ast.unparse(s.value.func) and 'logg' not in ast.unparse(s.value.func):
                c.append((b, i))
            elif isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id in names_in(s.value):
                c.append((b, i))
    if not c: return False
    b, i = rng.choice(c); b[i] = ast.Pass(); return True


def m_name(fn, mod, rng):
    """Use another local of the same function."""
    loc = sorted({n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for a in fn.args.args})
    c = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in loc]
    if not c or len(loc) < 2: return False
    n = rng.choice(c); o = rng.choice([x for x in loc if x != n.id]); n.id = o; return True


def m_attr(fn, mod, rng):
    at = sorted({n.attr for n in ast.walk(fn) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id not in ("np", "jnp", "jax", "onp", "os")})
    c = [n for n in ast.walk(fn) if isinstance(n, ast.Attribute) and n.attr in at and isinstance(n.ctx, ast.Load)]
    if not c or len(at) < 2: return False
    n = rng.choice(c); n.attr = rng.choice([a for a in at if a != n.attr]); return True


def m_dropT(fn, mod, rng):
    c = [n for n in ast.walk(fn) if isinstance(n, ast.Attribute) and n.attr == "T"]
    if not c: return False
    n = rng.choice(c); Repl(n, n.value).visit(fn); return True


def m_func(fn, mod, rng):
    sw = {"sum": "mean", "mean": "sum", "max": "min", "min": "max", "argmax": "argmin", "zeros": "ones", "ones": "zeros", "any": "all", "all": "any",
          "add": "set", "set": "add", "sin": "cos", "cos": "sin", "maximum": "minimum", "minimum": "maximum", "floor": "ceil", "ceil": "floor", "argsort": "sort", "matvec": "rmatvec", "rmatvec": "matvec"}
    c = [n for n in ast.walk(fn) if isinstance(n, ast.Attribute) and n.attr in sw]
    if not c: return False
    n = rng.choice(c); n.attr = sw[n.attr]; return True


def m_einsum(fn, mod, rng):
    c = [n for n in ast.walk(fn) if isinstance(n, ast.Constant) and isinstance(n.value, str) and "->" in n.value and n.value.replace("->", "").replace(",", "").replace(" ", "").replace(".", "").isalpha()]
    if not c: return False
    n = rng.choice(c); l, r = n.value.split("->")
    ops = l.split(",")
    j = rng.randrange(len(ops)); o = ops[j]
    o2 = o.replace("...", "")
    if len(o2) < 2: return False
    i = rng.randrange(len(o2) - 1)
    o3 = o2[:i] + o2[i + 1] + o2[i] + o2[i + 2:]
    ops[j] = o.replace(o2, o3); n.value = ",".join(ops) + "->" + r; return True


def m_swapret(fn, mod, rng):
    c = [s for s in ast.walk(fn) if isinstance(s, (ast.Return, ast.Assign)) and isinstance(s.value, ast.Tuple) and len(s.value.elts) > 1]
    if not c: return False
    s = rng.choice(c); e = s.value.elts; i = rng.randrange(len(e) - 1)
    if ast.dump(e[i]) == ast.dump(e[i + 1]): return False
    e[i], e[i + 1] = e[i + 1], e[i]; return True


def m_dropterm(fn, mod, rng):
    c = [n for n in ast.walk(fn) if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)) and not any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(n))]
    if not c: return False
    n = rng.choice(c); Repl(n, n.left).visit(fn); return True


def m_boolop(fn, mod, rng):
    c = [n for n in ast.walk(fn) if isinstance(n, ast.BoolOp)]
    if not c: return False
    n = rng.choice(c)
    n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And(); return True


ALL = {k: v for k, v in globals().items() if k.startswith("m_")}
