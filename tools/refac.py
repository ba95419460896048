"""Behaviour-preserving rewrites of one function's syntax tree (for measuring quietness)."""
import ast, copy, random


def names_in(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def parents(tree):
    p = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            p[c] = n
    return p


def blocks(fn):
    """(owner, field, list) of every statement list inside fn."""
    out = []
    for n in ast.walk(fn):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                out.append((n, f, b))
        for h in getattr(n, "handlers", []) or []:
            pass
    return out


SAFE = (ast.BinOp, ast.Call, ast.Subscript, ast.Compare, ast.Attribute)


def strict_exprs(stmt):
    """Expressions of a simple statement that are always evaluated (not lazily, not in a scope)."""
    out = []

    def walk(n, lazy):
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        if isinstance(n, ast.expr) and not lazy and isinstance(n, SAFE) and not isinstance(getattr(n, "ctx", None), (ast.Store, ast.Del)):
            out.append(n)
        if isinstance(n, ast.IfExp):
            walk(n.test, lazy); walk(n.body, True); walk(n.orelse, True); return
        if isinstance(n, ast.BoolOp):
            walk(n.values[0], lazy)
            for v in n.values[1:]:
                walk(v, True)
            return
        if isinstance(n, ast.Compare) and len(n.ops) > 1:
            walk(n.left, lazy); walk(n.comparators[0], lazy); return
        if isinstance(n, ast.JoinedStr):
            return
        for c in ast.iter_child_nodes(n):
            walk(c, lazy)
    if isinstance(stmt, (ast.Assign, ast.Return, ast.Expr, ast.AnnAssign)) and getattr(stmt, "value", None) is not None:
        walk(stmt.value, False)
    elif isinstance(stmt, ast.If):
        walk(stmt.test, False)
    return out


class Repl(ast.NodeTransformer):
    def __init__(self, old, new):
        self.old, self.new = old, new

    def visit(self, n):
        if n is self.old:
            return self.new
        return super().generic_visit(n)


def simple(s):
    return isinstance(s, (ast.Assign, ast.Return, ast.AnnAssign, ast.Expr)) or isinstance(s, ast.If)


def r_temp(fn, mod, rng):
    """Name a sub-expression."""
    c = []
    for o, f, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            for e in strict_exprs(s):
                if isinstance(s, ast.Expr) and e is s.value:
                    continue
                if isinstance(s, ast.Assign) and not all(isinstance(t, (ast.Name, ast.Tuple)) for t in s.targets):
                    continue
                c.append((b, i, s, e))
    if not c:
        return False
    b, i, s, e = rng.choice(c)
    # evaluation order inside the statement may change; restrict to pure-looking siblings
    nm = "tmp_%d" % rng.randrange(1000)
    new = ast.Assign([ast.Name(nm, ast.Store())], copy.deepcopy(e))
    Repl(e, ast.Name(nm, ast.Load())).visit(s)
    b.insert(i, new)
    return True


def free_locals(fn, e):
    loc = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
    if fn.args.vararg: loc.add(fn.args.vararg.arg)
    if fn.args.kwarg: loc.add(fn.args.kwarg.arg)
    return loc


def r_helper_local(fn, mod, rng):
    """Extract an expression into a nested helper defined just before the statement."""
    c = []
    for o, f, b in blocks(fn):
        for i, s in enumerate(b):
            for e in strict_exprs(s):
                if isinstance(s, ast.Expr) and (e is s.value):
                    continue
                if isinstance(s, ast.Assign) and not all(isinstance(t, (ast.Name, ast.Tuple)) for t in s.targets):
                    continue
                if isinstance(e, (ast.BinOp, ast.Call)) and not any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(e)):
                    if any(isinstance(x, ast.Call) and getattr(x.func, "id", "") in ("super", "locals") for x in ast.walk(e)):
                        continue
                    c.append((b, i, s, e))
    if not c:
        return False
    b, i, s, e = rng.choice(c)
    nm = "_helper_%d" % rng.randrange(1000)
    h = ast.FunctionDef(nm, ast.arguments([], [], None, [], [], None, []), [ast.Return(copy.deepcopy(e))], [])
    Repl(e, ast.Call(ast.Name(nm, ast.Load()), [], [])).visit(s)
    b.insert(i, h)
    return True


def enclosing_locals(fn):
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fn:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
    return out


def r_helper_mod(fn, mod, rng):
    """Extract an expression into a module-level private function taking its locals."""
    c = []
    for o, f, b in blocks(fn):
        for i, s in enumerate(b):
            for e in strict_exprs(s):
                if isinstance(e, (ast.BinOp, ast.Call, ast.Subscript)) and not any(isinstance(x, (ast.NamedExpr, ast.Lambda)) for x in ast.walk(e)):
                    if any(isinstance(x, ast.Name) and x.id in ("super", "__class__") for x in ast.walk(e)):
                        continue
                    c.append((b, i, s, e))
    if not c:
        return False
    b, i, s, e = rng.choice(c)
    loc = enclosing_locals(fn)
    inner = {x.id for x in ast.walk(e) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    ps = sorted((names_in(e) & loc) - inner)
    nm = "_xhelper_%d" % rng.randrange(1000)
    h = ast.FunctionDef(nm, ast.arguments([], [ast.arg(p) for p in ps], None, [], [], None, []), [ast.Return(copy.deepcopy(e))], [])
    Repl(e, ast.Call(ast.Name(nm, ast.Load()), [ast.Name(p, ast.Load()) for p in ps], [])).visit(s)
    mod.body.append(h)
    return True


def r_helper_block(fn, mod, rng):
    """Move a run of simple assignments into a module-level helper returning the names."""
    c = []
    for o, f, b in blocks(fn):
        for i in range(len(b)):
            for L in (1, 2, 3, 4):
                run = b[i:i + L]
                if len(run) < L:
                    continue
                if all(isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets) for s in run):
                    if any(isinstance(x, (ast.NamedExpr, ast.Lambda)) for s in run for x in ast.walk(s)):
                        continue
                    if any(isinstance(x, ast.Name) and x.id == "super" for s in run for x in ast.walk(s)):
                        continue
                    c.append((b, i, L))
    if not c:
        return False
    b, i, L = rng.choice(c)
    run = b[i:i + L]
    outs = []
    for s in run:
        for t in s.targets:
            if t.id not in outs:
                outs.append(t.id)
    loc = enclosing_locals(fn)
    # nonlocal / global names cannot be moved
    for n in ast.walk(fn):
        if isinstance(n, (ast.Nonlocal, ast.Global)) and set(n.names) & set(outs):
            return False
    ins, defd = set(), set()
    for s in run:
        used = names_in(s.value)
        compv = {x.id for x in ast.walk(s.value) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        ins |= (used & loc) - defd - compv
        defd |= {t.id for t in s.targets}
    ps = sorted(ins)
    nm = "_blk_%d" % rng.randrange(1000)
    body = [copy.deepcopy(s) for s in run]
    if len(outs) == 1:
        body.append(ast.Return(ast.Name(outs[0], ast.Load())))
        tgt = ast.Name(outs[0], ast.Store())
    else:
        body.append(ast.Return(ast.Tuple([ast.Name(x, ast.Load()) for x in outs], ast.Load())))
        tgt = ast.Tuple([ast.Name(x, ast.Store()) for x in outs], ast.Store())
    h = ast.FunctionDef(nm, ast.arguments([], [ast.arg(p) for p in ps], None, [], [], None, []), body, [])
    b[i:i + L] = [ast.Assign([tgt], ast.Call(ast.Name(nm, ast.Load()), [ast.Name(p, ast.Load()) for p in ps], []))]
    mod.body.append(h)
    return True


def r_rename(fn, mod, rng):
    """Rename a local variable everywhere in the function."""
    params = {n.arg for n in ast.walk(fn) if isinstance(n, ast.arg)}
    loc = enclosing_locals(fn) - params
    glob = {x for n in ast.walk(fn) if isinstance(n, (ast.Global,)) for x in n.names}
    imp = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                imp.add((a.asname or a.name).split(".")[0])
        if isinstance(n, ast.ClassDef):
            imp.add(n.name)
            for q in ast.walk(n):
                if isinstance(q, ast.Name) and isinstance(q.ctx, ast.Store):
                    imp.add(q.id)
                elif isinstance(q, ast.FunctionDef):
                    imp.add(q.name)
    loc -= glob | imp
    loc = sorted(loc)
    if not loc:
        return False
    o = rng.choice(loc)
    n2 = o + "_rn"
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id == o:
            n.id = n2
        elif isinstance(n, ast.FunctionDef) and n is not fn and n.name == o:
            n.name = n2
        elif isinstance(n, ast.Nonlocal):
            n.names = [n2 if x == o else x for x in n.names]
        elif isinstance(n, ast.ExceptHandler) and n.name == o:
            n.name = n2
    return True


def r_invert_if(fn, mod, rng):
    c = [n for n in ast.walk(fn) if isinstance(n, ast.If) and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If))]
    c += [n for n in ast.walk(fn) if isinstance(n, ast.IfExp)]
    if not c:
        return False
    n = rng.choice(c)
    n.test = ast.UnaryOp(ast.Not(), n.test)
    n.body, n.orelse = n.orelse, n.body
    return True


def pure_stmt(s):
    return isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets) and \
        not any(isinstance(x, (ast.NamedExpr,)) for x in ast.walk(s.value))


def nocall(e):
    return not any(isinstance(x, ast.Call) for x in ast.walk(e))


def r_reorder(fn, mod, rng):
    c = []
    for o, f, b in blocks(fn):
        for i in range(len(b) - 1):
            s, t = b[i], b[i + 1]
            if pure_stmt(s) and pure_stmt(t):
                so, to = {x.id for x in s.targets}, {x.id for x in t.targets}
                defs = {x.name: names_in(x) for x in ast.walk(fn) if isinstance(x, ast.FunctionDef) and x is not fn}

                def reads(e):
                    r = set(names_in(e))
                    while True:
                        n = r.union(*[defs[k] for k in r if k in defs])
                        if n == r:
                            return r
                        r = n
                if so & to or so & reads(t.value) or to & reads(s.value):
                    continue
                # at most one of them may have effects
                if not (nocall(s.value) or nocall(t.value) or pureish(s.value) and pureish(t.value)):
                    continue
                c.append((b, i))
            elif isinstance(s, ast.FunctionDef) and isinstance(t, ast.FunctionDef) and not s.decorator_list and not t.decorator_list:
                if not any(isinstance(x, ast.Name) and x.id in (s.name,) for d in t.args.defaults for x in ast.walk(d)):
                    c.append((b, i))
    if not c:
        return False
    b, i = rng.choice(c)
    b[i], b[i + 1] = b[i + 1], b[i]
    return True


PURE_ROOT = {"np", "jnp", "jax", "onp", "len", "range", "min", "max", "tuple", "list", "float", "int", "sum", "abs"}


def pureish(e):
    for x in ast.walk(e):
        if isinstance(x, ast.Call):
            f = x.func
            while isinstance(f, ast.Attribute):
                f = f.value
            if not (isinstance(f, ast.Name) and f.id in PURE_ROOT):
                return False
    return True


def r_comp_to_loop(fn, mod, rng):
    c = []
    for o, f, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
                g = s.value.generators[0]
                tg = names_in(g.target)
                if tg & enclosing_locals_wo(fn, s):
                    continue
                if isinstance(s, ast.Assign) and not (len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id not in names_in(s.value)):
                    continue
                if any(isinstance(x, ast.Lambda) for x in ast.walk(s.value)):
                    continue
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    g = s.value.generators[0]
    acc = s.targets[0].id if isinstance(s, ast.Assign) else "acc_out"
    inner = [ast.Expr(ast.Call(ast.Attribute(ast.Name(acc, ast.Load()), "append", ast.Load()), [s.value.elt], []))]
    for cnd in reversed(g.ifs):
        inner = [ast.If(cnd, inner, [])]
    tgt = copy.deepcopy(g.target)
    loop = ast.For(tgt, g.iter, inner, [])
    new = [ast.Assign([ast.Name(acc, ast.Store())], ast.List([], ast.Load())), loop]
    if isinstance(s, ast.Return):
        new.append(ast.Return(ast.Name(acc, ast.Load())))
    b[i:i + 1] = new
    return True


def enclosing_locals_wo(fn, s):
    out = set()
    skip = set(map(id, ast.walk(s)))
    for n in ast.walk(fn):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Name):
            out.add(n.id)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
    return out


def r_loop_to_comp(fn, mod, rng):
    c = []
    for o, f, b in blocks(fn):
        for i in range(len(b) - 1):
            s, t = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.List) and not s.value.elts and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) \
                    and isinstance(t, ast.For) and not t.orelse and len(t.body) == 1 and isinstance(t.body[0], ast.Expr):
                e = t.body[0].value
                a = s.targets[0].id
                if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "append" and isinstance(e.func.value, ast.Name) and e.func.value.id == a \
                        and a not in names_in(e.args[0]) and a not in names_in(t.iter):
                    tg = names_in(t.target)
                    rest = set()
                    skip = set(map(id, ast.walk(t)))
                    for n in ast.walk(fn):
                        if id(n) not in skip and isinstance(n, ast.Name) and n.id in tg:
                            rest.add(n.id)
                    if rest:
                        continue
                    c.append((b, i, s, t, e))
    if not c:
        return False
    b, i, s, t, e = rng.choice(c)
    b[i:i + 2] = [ast.Assign(s.targets, ast.ListComp(e.args[0], [ast.comprehension(t.target, t.iter, [], 0)]))]
    return True


def r_else_after_return(fn, mod, rng):
    """if c: return a;  rest   ->   if c: return a  else: rest"""
    c = []
    for o, f, b in blocks(fn):
        for i, s in enumerate(b[:-1]):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                c.append((b, i))
    if not c:
        return False
    b, i = rng.choice(c)
    b[i].orelse = b[i + 1:]
    del b[i + 1:]
    return True


def r_ifexp_to_if(fn, mod, rng):
    c = []
    for o, f, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                c.append((b, i, s))
            if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    if isinstance(s, ast.Return):
        b[i] = ast.If(s.value.test, [ast.Return(s.value.body)], [ast.Return(s.value.orelse)])
    else:
        b[i] = ast.If(s.value.test, [ast.Assign(copy.deepcopy(s.targets), s.value.body)], [ast.Assign(copy.deepcopy(s.targets), s.value.orelse)])
    return True


def r_aug(fn, mod, rng):
    c = []
    for o, f, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, (ast.Add, ast.Sub, ast.Mult)):
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    b[i] = ast.Assign([s.target], ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value))
    return True


def r_noop(fn, mod, rng):
    bl = blocks(fn)
    o, f, b = rng.choice(bl)
    k = rng.choice(["pass", "_unused = 0", "assert True", "_ = None"])
    # never after a terminator, never before a docstring
    i = rng.randrange(0, len(b))
    if i == 0 and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
        i = 1
    if any(isinstance(x, ast.ClassDef) for x in [o]):
        return False
    b.insert(i, ast.parse(k).body[0])
    return True


def r_commute(fn, mod, rng):
    """a*b -> b*a, a+b -> b+a for arithmetic with a numeric literal or unary minus operand."""
    c = [n for n in ast.walk(fn) if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mult, ast.Add)) and
         any(isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) and not isinstance(x.value, bool) for x in (n.left, n.right))
         and not any(isinstance(x, (ast.List, ast.Tuple)) or isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (n.left, n.right))]
    if not c:
        return False
    n = rng.choice(c)
    n.left, n.right = n.right, n.left
    return True


def r_cmp_flip(fn, mod, rng):
    fl = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    c = [n for n in ast.walk(fn) if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in fl]
    if not c:
        return False
    n = rng.choice(c)
    n.left, n.comparators, n.ops = n.comparators[0], [n.left], [fl[type(n.ops[0])]()]
    return True


def r_return_temp(fn, mod, rng):
    c = []
    for o, f, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    b[i:i + 1] = [ast.Assign([ast.Name("result_", ast.Store())], s.value), ast.Return(ast.Name("result_", ast.Load()))]
    return True


def r_inline(fn, mod, rng):
    """Inline a local assigned once and used once in the next statement."""
    c = []
    allnames = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name):
            allnames.setdefault(n.id, []).append(n)
    for o, f, b in blocks(fn):
        for i in range(len(b) - 1):
            s, t = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(t, (ast.Assign, ast.Return)):
                nm = s.targets[0].id
                us = allnames[nm]
                loads = [x for x in us if isinstance(x.ctx, ast.Load)]
                if len(us) == 2 and len(loads) == 1 and loads[0] in strictnames(t):
                    c.append((b, i, s, t, loads[0]))
    if not c:
        return False
    b, i, s, t, u = rng.choice(c)
    Repl(u, s.value).visit(t)
    del b[i]
    return True


def strictnames(t):
    out = []

    def walk(n):
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.IfExp, ast.BoolOp)):
            return
        if isinstance(n, ast.Name):
            out.append(n)
        for c in ast.iter_child_nodes(n):
            walk(c)
    if getattr(t, "value", None) is not None:
        walk(t.value)
    return out


def r_kwargs(fn, mod, rng):
    """np.sum(x, 0) style untouched; f(a) -> identity call through a lambda alias."""
    c = []
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("np", "jnp", "onp"):
            if n.func.attr in ("sum", "mean", "max", "min", "any", "all", "prod", "argmax", "argmin") and n.args and not isinstance(n.args[0], ast.Starred):
                if isinstance(n.args[0], (ast.Name, ast.BinOp, ast.Call, ast.Subscript, ast.Attribute)):
                    c.append(("meth", n))
            if n.func.attr in ("matmul", "dot") and len(n.args) == 2:
                c.append(("mm", n))
    for n in ast.walk(fn):
        if isinstance(n, ast.Attribute) and n.attr == "T" and isinstance(n.ctx, ast.Load):
            c.append(("T", n))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "reshape" and len(n.args) == 1 and isinstance(n.args[0], ast.Tuple) and not n.keywords:
            c.append(("rs", n))
    if not c:
        return False
    k, n = rng.choice(c)
    nps = [a.asname or a.name for s in ast.walk(mod) if isinstance(s, ast.Import) for a in s.names if a.name in ("numpy", "jax.numpy")]
    if k == "meth":
        new = ast.Call(ast.Attribute(n.args[0], n.func.attr, ast.Load()), n.args[1:], n.keywords)
        # python lists have no such methods; only when argument is clearly an array expression
        if not isinstance(n.args[0], (ast.BinOp, ast.Call)):
            return False
        if isinstance(n.args[0], ast.Call) and not (isinstance(n.args[0].func, ast.Attribute) and getattr(n.args[0].func.value, "id", "") in ("np", "jnp")):
            return False
        Repl(n, new).visit(fn)
    elif k == "mm":
        Repl(n, ast.BinOp(n.args[0], ast.MatMult(), n.args[1])).visit(fn)
    elif k == "T":
        if not nps:
            return False
        m = "jnp" if "jnp" in nps else nps[0]
        Repl(n, ast.Call(ast.Attribute(ast.Name(m, ast.Load()), "transpose", ast.Load()), [n.value], [])).visit(fn)
    elif k == "rs":
        n.args = n.args[0].elts
    return True


def r_lambda_to_def(fn, mod, rng):
    c = []
    for o, f, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Lambda) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    b[i] = ast.FunctionDef(s.targets[0].id, s.value.args, [ast.Return(s.value.body)], [])
    return True


def r_split_tuple(fn, mod, rng):
    """a, b = x, y  ->  a = x; b = y (when independent)"""
    c = []
    for o, f, b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and len(s.value.elts) == len(s.targets[0].elts) \
                    and all(isinstance(t, ast.Name) for t in s.targets[0].elts):
                ts = {t.id for t in s.targets[0].elts}
                if not ts & names_in(s.value):
                    c.append((b, i, s))
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, (ast.Attribute, ast.Name)) \
                    and all(isinstance(t, ast.Name) for t in s.targets[0].elts):
                c.append((b, i, s))
    if not c:
        return False
    b, i, s = rng.choice(c)
    if isinstance(s.value, ast.Tuple):
        b[i:i + 1] = [ast.Assign([t], v) for t, v in zip(s.targets[0].elts, s.value.elts)]
    else:
        if isinstance(s.value, ast.Name) and s.value.id in {t.id for t in s.targets[0].elts}:
            return False
        b[i:i + 1] = [ast.Assign([t], ast.Subscript(copy.deepcopy(s.value), ast.Constant(k), ast.Load())) for k, t in enumerate(s.targets[0].elts)]
    return True


def r_enumerate(fn, mod, rng):
    """for i, x in enumerate(xs) -> for i in range(len(xs)): x = xs[i]  (xs a name or attribute)"""
    c = []
    for n in ast.walk(fn):
        if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and getattr(n.iter.func, "id", "") == "enumerate" and len(n.iter.args) == 1 and not n.iter.keywords \
                and isinstance(n.iter.args[0], (ast.Name, ast.Attribute)) and isinstance(n.target, ast.Tuple) and isinstance(n.target.elts[0], ast.Name):
            c.append(n)
    if not c:
        return False
    n = rng.choice(c)
    xs = n.iter.args[0]
    i, x = n.target.elts
    n.iter = ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [copy.deepcopy(xs)], [])], [])
    n.target = i
    n.body.insert(0, ast.Assign([x], ast.Subscript(copy.deepcopy(xs), ast.Name(i.id, ast.Load()), ast.Load())))
    return True


def r_demorgan(fn, mod, rng):
    c = [n for n in ast.walk(fn) if isinstance(n, ast.BoolOp)]
    par = parents(fn)
    c = [n for n in c if isinstance(par.get(n), (ast.If, ast.IfExp, ast.While)) and par[n].test is n]
    if not c:
        return False
    n = rng.choice(c)
    p = par[n]
    p.test = ast.UnaryOp(ast.Not(), ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), [ast.UnaryOp(ast.Not(), v) for v in n.values]))
    return True


def r_nest_and(fn, mod, rng):
    """if a and b: X  ->  if a: if b: X"""
    c = [n for n in ast.walk(fn) if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And)]
    if not c:
        return False
    n = rng.choice(c)
    v = n.test.values
    inner = v[1] if len(v) == 2 else ast.BoolOp(ast.And(), v[1:])
    n.body = [ast.If(inner, n.body, [])]
    n.test = v[0]
    return True


ALL = {k: v for k, v in globals().items() if k.startswith("r_")}
