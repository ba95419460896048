"""Source loading: modules of /repo/feax and of /verif/specs, as syntax trees."""
from __future__ import annotations
import ast, os


class Module:
    def __init__(self, name, path, tree, is_pkg, src):
        self.name, self.path, self.tree, self.is_pkg, self.src = name, path, tree, is_pkg, src
        self.env = {}
        self.state = "new"
        self.fid = ("M", name)
        self.mutated_globals = set()


class Program:
    def __init__(self, repo="/repo", spec_dirs=()):
        self.repo = repo
        self.modules = {}
        self.errors = []
        self._load_tree(os.path.join(repo, "feax"), "feax")
        for d, pkg in spec_dirs:
            self._load_tree(d, pkg)

    def _load_tree(self, root, pkg):
        for dp, dn, fn in os.walk(root):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            rel = os.path.relpath(dp, root)
            parts = [] if rel == "." else rel.split(os.sep)
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                is_pkg = f == "__init__.py"
                name = ".".join([pkg] + parts + ([] if is_pkg else [f[:-3]]))
                src = open(p, encoding="utf-8").read()
                tree = ast.parse(src, p)
                m = Module(name, p, tree, is_pkg, src)
                m.mutated_globals = mutated_globals(tree)
                self.modules[name] = m

    def resolve_relative(self, mod, level, target):
        if level == 0:
            return target
        parts = mod.name.split(".")
        if not mod.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (level - 1)]
        return ".".join(parts + ([target] if target else []))


MUTATORS = {"append", "extend", "update", "setdefault", "pop", "clear", "add", "insert",
            "remove", "discard", "popitem", "move_to_end"}


def mutated_globals(tree):
    """Module-level names whose object is mutated (or rebound) inside functions."""
    top = set()
    for s in tree.body:
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            tg = s.targets if isinstance(s, ast.Assign) else [s.target]
            for t in tg:
                if isinstance(t, ast.Name):
                    top.add(t.id)
    out = set()
    for fn in ast.walk(tree):
        if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        loc = local_names(fn)
        for n in ast.walk(fn):
            if isinstance(n, ast.Global):
                out.update(x for x in n.names if x in top)
            tgt = []
            if isinstance(n, ast.Assign):
                tgt = n.targets
            elif isinstance(n, ast.AugAssign):
                tgt = [n.target]
            elif isinstance(n, ast.Delete):
                tgt = n.targets
            for t in tgt:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                    if t.value.id in top and t.value.id not in loc:
                        out.add(t.value.id)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                    and n.func.attr in MUTATORS and isinstance(n.func.value, ast.Name):
                if n.func.value.id in top and n.func.value.id not in loc:
                    out.add(n.func.value.id)
    return out


_LOC = {}


def local_names(fn):
    """Names bound in the scope of fn (function, lambda or comprehension excluded)."""
    r = _LOC.get(id(fn))
    if r is not None:
        return r[1]
    names, glob = set(), set()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    body = fn.body if isinstance(fn.body, list) else []

    def tgt(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # walrus inside a comprehension binds here
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    tgt(m.target)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AnnAssign, ast.AugAssign, ast.NamedExpr)):
            tgt(n.target)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            tgt(n.target)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for it in n.items:
                if it.optional_vars is not None:
                    tgt(it.optional_vars)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        for c in ast.iter_child_nodes(n):
            walk(c)
    for s in body:
        walk(s)
    names -= glob
    _LOC[id(fn)] = (fn, names)
    return names
