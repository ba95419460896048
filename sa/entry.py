"""Evaluate one entry point (function, method, class constructor) symbolically."""
from __future__ import annotations
import ast
from . import terms as tm
from .terms import T, mk, const, num, sym, NONE, TRUE, FALSE, CUR, fresh, lam
from .values import *
from .interp import Interp, EFF, UNDEF, Undecided

HINTS = {
    ("Problem", "fes"): "list:FiniteElement",
    ("Problem", "mesh"): "list:Mesh",
    ("param", "problem"): "Problem",
    ("param", "mesh"): "Mesh",
    ("param", "bc"): "DirichletBC",
    ("param", "fe"): "FiniteElement",
    ("param", "traced_structure"): "TracedStructure",
    ("param", "ts"): "TracedStructure",
}


def all_entries(I):
    """[(qualname, value, kind)] of every module-level function and method."""
    out = []
    for m in I.prog.modules.values():
        if not m.name.startswith("feax"):
            continue
        I.module(m.name)
        for s in m.tree.body:
            if isinstance(s, ast.FunctionDef):
                out.append((m.name + "." + s.name, "func"))
            elif isinstance(s, ast.ClassDef):
                for b in s.body:
                    if isinstance(b, ast.FunctionDef):
                        out.append((m.name + "." + s.name + "." + b.name, "method"))
    return out


def entry_func(I, qual):
    v = I.lookup_qual(qual)
    if v is None:
        return None, None
    f = v
    if isinstance(v, RefV) and v.kind == "custom":
        f = I.root.data[("C", v.id)][0]
    if isinstance(v, ClassV):
        f = v.find("__init__")
    if isinstance(f, BoundV):
        f = f.f
    if not isinstance(f, FuncV):
        f = None
    return v, f


def signature(I, qual):
    """[(name, default term or None, kind)] of an entry point, or None."""
    v, f = entry_func(I, qual)
    if f is None:
        return None
    st = I.new_state()
    st.set(EFF, ())
    out = []
    for name, dn, kind, ann in I.fn_params(f):
        d = None
        if dn is not None:
            d = I.R(dn[0], st)
        out.append((name, d, kind))
    return out


def reset(I):
    """Forget what an earlier entry assumed about its parameters."""
    I.steps = 0
    I.stack = []
    I.yielded = []
    I.last_wb = ()
    if getattr(I, "types0", None) is None:
        for m in list(I.prog.modules):
            I.module(m)
        I.types0 = dict(I.types)
    I.types = dict(I.types0)


def eval_entry(I, qual, names=None):
    """Closed value term of a function, method or constructor applied to symbols.

    names: parameter symbols to use, one per parameter of the reference; a
    parameter the reference does not have takes its default value.
    """
    reset(I)
    v, f = entry_func(I, qual)
    if v is None:
        return None
    st = I.new_state()
    st.set(EFF, ())
    args, kwargs = [], {}
    if f is not None:
        ps = I.fn_params(f)
        ren = {}
        if names is not None:
            mine = [p[0] for p in ps]
            if mine != names and len(mine) == len(names) and set(mine) != set(names):
                ren = dict(zip(mine, names))
        for j, (name, dn, kind, ann) in enumerate(ps):
            if isinstance(v, ClassV) and j == 0:
                continue
            sname = ren.get(name, name)
            isself = j == 0 and f.cls is not None and f.kind not in ("static",)
            if names is not None and sname not in names and not isself:
                if dn is not None:
                    continue
                if kind in ("var", "kwvar"):
                    continue
                raise Undecided("parameter %s not in the reference" % name)
            if kind == "var":
                x = mk("star", sym("*" + sname))
            elif kind == "kwvar":
                x = sym("**" + sname)
                kwargs["**"] = x
                continue
            elif isself and f.kind in ("func", "property"):
                x = sym("self:" + f.cls.name)
                I.types[x.dig] = f.cls
            elif isself and f.kind == "class":
                x = f.cls
            else:
                x = sym(sname)
                I.annotate(x, ann, f.mod)
                if I.typ(x) is None and ("param", name) in I.hints:
                    I.set_hint(x, I.hints[("param", name)])
            if kind == "kw":
                kwargs[name] = x
            elif any(k == "var" for _, _, k, _ in ps) or not (names is not None and any(p[0] not in names for p in ps)):
                args.append(x)
            elif isself or (j and args and len(args) == j) or not args:
                args.append(x)
            else:
                kwargs[name] = x
    I._force_opaque = False

    def thunk(child):
        return I.call(v, list(args), dict(kwargs), child)
    return I.run_closed(thunk, st)


SKIP = (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)


def module_term(I, name):
    """What importing the module does, beyond binding names."""
    reset(I)
    m = I.module(name)
    if m is None:
        return None
    body, first = [], True
    for s in m.tree.body:
        if isinstance(s, SKIP):
            continue
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            top = s.names[0].name if isinstance(s, ast.Import) else (s.module or "")
            loads = (isinstance(s, ast.ImportFrom) and s.level > 0) or top.split(".")[0] == "jax"
            if first and loads and name == "feax":
                first = False
                body.append(None)
            if isinstance(s, ast.ImportFrom):
                continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.If) and "TYPE_CHECKING" in ast.unparse(s.test):
            continue
        body.append(s)
    if not any(isinstance(s, (ast.Expr, ast.If, ast.For, ast.While, ast.With, ast.Delete, ast.AugAssign)) or
               (isinstance(s, ast.Assign) and not all(isinstance(t, ast.Name) for t in s.targets)) for s in body if s):
        return tm.mk("const", "no import-time action")
    I.in_module_body = True
    try:
        st = I.new_state()
        st.set(EFF, ())
        fid = I.nid()
        from .program import local_names
        fn = ast.FunctionDef(name="<module>", args=ast.arguments([], [], None, [], [], None, []),
                             body=[s for s in body if s], decorator_list=[], lineno=1, col_offset=0)
        from .interp import Frame
        I.frames[fid] = Frame(fid, m.fid, m, set(local_names(fn)), None)

        def thunk(child):
            for s in body:
                if s is None:
                    I.effect(child, tm.mk("do", tm.mk("call", "import jax", (), ())))
                    continue
                I.exec_block([s], fid, child)
            return tm.NONE
        I.stack.append(("call", 0))
        t = I.run_closed(thunk, st)
        return tm.mk("imports", t.args[1]) if t.op == "eff" else tm.mk("const", "no import-time action")
    finally:
        I.in_module_body = False
