"""Abstract interpreter: syntax trees -> normalised value terms.

Every reachable path is folded at merges into guarded (gated) values; calls to
in-project helpers are inlined, so that the resulting term does not depend on
how the code is split into functions, named, or ordered.
"""
from __future__ import annotations
import ast, sys
from fractions import Fraction
from . import terms as tm
from .terms import (T, mk, const, num, sym, NONE, TRUE, FALSE, ZERO, ONE, ELLIPSIS, ite, and_, or_,
                    not_, add, sub, mul, div, fdiv, mod, power, neg, gt, ge, eq, is_num, is_const,
                    intval, unk, fresh, lam, is_bool, subterms, contains, CUR)
from .ops import (idx, seti, len_, slice_, cat, shape, transpose, matmul, band, bor, binv, where,
                  commut, LOOPIDX, FULL, EMPTY, NOTHING, bases)
from .ops import loop_term, while_term, is_term, trace_order
from .values import *
from .program import local_names, Program

sys.setrecursionlimit(60000)

EFF = ("L", "EFF")
ALL = const("ALL")
UNDEF = mk("undef")


class Frame:
    __slots__ = ("fid", "parent", "mod", "locals", "cls", "self")

    def __init__(self, fid, parent, mod, locals_, cls=None):
        self.fid, self.parent, self.mod, self.locals, self.cls = fid, parent, mod, locals_, cls
        self.self = None


class Held(ast.expr):
    """An already evaluated expression."""
    _fields = ()


class Exit:
    __slots__ = ("g", "kind", "val", "st")

    def __init__(self, g, kind, val, st):
        self.g, self.kind, self.val, self.st = g, kind, val, st


def exclusive(exits, prior=FALSE):
    """An exit is taken only if none before it is."""
    if len(exits) < 2 and prior is FALSE:
        return exits
    out = []
    for e in exits:
        out.append(Exit(and_(not_(prior), e.g), e.kind, e.val, e.st))
        prior = or_(prior, e.g)
    return out


def common_facts(states):
    first = states[0].facts
    return {k: v for k, v in first.items() if all(z.facts.get(k) == v for z in states[1:])}


def exc_name(x):
    if x.op == "call":
        f = x.args[0]
        return f if isinstance(f, str) else tm.show(f, 2)
    if x.op == "obj":
        return str(x.args[0])
    if x.op == "const":
        return str(x.args[0])
    return "exception"


def choice_of(v):
    """(condition, alternative, alternative) of a chosen value."""
    if isinstance(v, IteV):
        return v.c, v.a, v.b
    if isinstance(v, T) and v.op == "ite":
        return v.args
    return None


def eff_term(t, e, *ws):
    return mk("eff", t, e, *sorted(ws, key=lambda x: x.dig))


tm.REBUILD["eff"] = eff_term


def when_term(g, y):
    if g is TRUE:
        return y
    if g is FALSE or y is NOTHING:
        return NOTHING
    return mk("when", g, y)


def effs_term(rg, types, rest):
    if rest.op == "list":
        rest = mk("list", *trace_order([x for x in rest.args if x is not NOTHING]))
    return mk("effs", rg, types if rg is not FALSE else (), rest)


tm.REBUILD["when"] = when_term
tm.REBUILD["effs"] = effs_term


def is_print(t):
    return t.op == "call" and (t.args[0] == "print" or (isinstance(t.args[0], T) and t.args[0].op == "ext" and t.args[0].args[0] == "print"))


def hook(fn):
    """A method users override: abstract, empty, or a default of nothing."""
    if not isinstance(fn, ast.FunctionDef):
        return False
    if any("abstract" in ast.unparse(d) for d in fn.decorator_list):
        return True
    if fn.name.startswith("__") or fn.decorator_list:
        return False
    b = [s for s in fn.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if not b:
        return True
    if len(b) > 1:
        return False
    s = b[0]
    if isinstance(s, ast.Pass):
        return True
    if isinstance(s, ast.Raise):
        return "NotImplementedError" in ast.unparse(s)
    if isinstance(s, ast.Return):
        v = s.value
        if v is None or (isinstance(v, ast.Constant) and v.value is None):
            return True
        if isinstance(v, (ast.List, ast.Tuple)) and not v.elts:
            return True
        if isinstance(v, ast.Dict) and not v.keys:
            return True
        ps = [a.arg for a in fn.args.args]
        return isinstance(v, ast.Name) and v.id in ps[1:]
    return False


class Interp:
    MAXSTEPS = 400000
    MAXDEPTH = 60

    def __init__(self, prog: Program, opaque=(), hints=None, aliases=None):
        self.prog = prog
        self.root = Layer(None)
        self.frames = {}
        self.n = 0
        self.opaque = dict(opaque) if opaque else {}
        self.types = {}
        self.attr0 = {}                    # attributes before their first assignment
        self.hints = hints or {}
        self.aliases = aliases or {}       # spec function qual -> repo qual used as call label
        self.steps = 0
        self.stack = []
        self.root.data[EFF] = ()
        self.analysed = {}                 # qualname -> file:line, functions visited
        self.callsites = 0
        self.stmts = 0
        self.depth = 0
        self.loop_ids = 0
        from . import api
        self.api = api
        self.state_labels = {}
        self.virtual = set()               # attribute terms that are user hooks
        self.ext_cls = {}

    # ------------------------------------------------------------ modules
    def new_state(self):
        return St(Layer(self.root))

    def module(self, name):
        m = self.prog.modules.get(name)
        if m is None:
            return None
        if m.state == "new":
            m.state = "loading"
            fr = Frame(m.fid, None, m, None)
            self.frames[m.fid] = fr
            # pre-bind definitions for circular imports
            st = St(self.root)
            save = (CUR["loc"], self.stack, self.depth)
            self.stack = []
            try:
                for s in m.tree.body:
                    if isinstance(s, ast.FunctionDef) and not s.decorator_list:
                        m.env[s.name] = self.make_func(s, m.fid, st)
                self.exec_module(m, st)
            finally:
                CUR["loc"], self.stack, self.depth = save
            m.state = "loaded"
        return m

    def exec_module(self, m, st):
        for s in m.tree.body:
            try:
                r = self.exec_top(m, s, st)
                if isinstance(st.top, Layer) and st.top is not self.root:
                    # fold layers back into root
                    l = st.top
                    data = {}
                    chain = []
                    while l is not None and l is not self.root:
                        chain.append(l)
                        l = l.parent
                    for l in reversed(chain):
                        data.update(l.data)
                    self.root.data.update(data)
                    st.top = self.root
            except Undecided:
                for t in ast.walk(s):
                    if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                        m.env.setdefault(t.id, mk("global", m.name + "." + t.id))

    def exec_top(self, m, s, st):
        """Module-level statement; guarded imports bind conditionally."""
        if isinstance(s, ast.Try) and len(s.handlers) == 1 and not s.finalbody:
            mods = []
            for x in s.body:
                if isinstance(x, ast.Import):
                    mods += [a.name for a in x.names]
                elif isinstance(x, ast.ImportFrom):
                    mods += ["." * x.level + (x.module or "") + "." + a.name for a in x.names]
            if mods:
                c = mk("raised", "import", tuple(sorted(set(mods))))
                env0 = dict(m.env)
                self.exec_block(s.body + s.orelse, m.fid, st)
                envb = dict(m.env)
                m.env.clear()
                m.env.update(env0)
                self.exec_block(s.handlers[0].body, m.fid, st)
                enva = dict(m.env)
                for k in set(enva) | set(envb):
                    m.env[k] = self.merge_val(c, enva.get(k, MISSING), envb.get(k, MISSING), st, st, st)
                return None
        return self.exec_block([s], m.fid, st)

    def mod_attr(self, mod, name, loc=None):
        """Attribute of a project module (value)."""
        m = self.module(mod)
        if m is None:
            return mk("ext", canon(mod + "." + name))
        if name in m.mutated_globals:
            return mk("global", m.name + "." + name)
        if name in m.env:
            return m.env[name]
        if mod + "." + name in self.prog.modules:
            return ModV(mod + "." + name)
        if m.state == "loading" and (mod, name) not in self._resolving:
          self._resolving.add((mod, name))
          try:
            st = St(self.root)
            for s in m.tree.body:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.name == name:
                    self.exec_block([s], m.fid, st)
                    return m.env[name]
                if isinstance(s, (ast.ImportFrom, ast.Import)):
                    for al in s.names:
                        if (al.asname or al.name) == name:
                            self.exec_block([s], m.fid, st)
                            return m.env[name]
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                    self.exec_block([s], m.fid, st)
                    return m.env[name]
          finally:
            self._resolving.discard((mod, name))
        for s in m.tree.body:
            if isinstance(s, ast.FunctionDef) and s.name == "__getattr__":
                # PEP 562 lazy module attribute
                return self.lazy_attr(m, name)
        return mk("ext", canon(mod + "." + name))

    def lazy_attr(self, m, name):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                for al in n.names:
                    if (al.asname or al.name) == name:
                        return self.mod_attr(self.prog.resolve_relative(m, n.level, n.module or ""), al.name)
        return mk("ext", canon(m.name + "." + name))

    def lookup_qual(self, qual):
        """'feax.mod.Class.meth' -> value, or None."""
        parts = qual.split(".")
        for k in range(len(parts), 0, -1):
            mn = ".".join(parts[:k])
            if mn in self.prog.modules:
                v = ModV(mn)
                for p in parts[k:]:
                    if isinstance(v, ModV):
                        v = self.mod_attr(v.name, p)
                    elif isinstance(v, ClassV):
                        v = v.find(p)
                    else:
                        return None
                    if v is None or (isinstance(v, T) and v.op == "ext"):
                        return None
                return v
        return None

    # ------------------------------------------------------------ utilities
    def nid(self):
        self.n += 1
        return self.n

    def loc(self, node, fid):
        fr = self.frames.get(fid)
        if fr is not None and hasattr(node, "lineno"):
            CUR["loc"] = "%s:%d" % (fr.mod.path, node.lineno)

    def set_type(self, t, cls):
        if isinstance(t, T) and cls is not None:
            self.types[t.dig] = cls

    def typ(self, t):
        if not isinstance(t, T):
            return None
        return self.types.get(t.dig)

    def new_list(self, st, segs, kind="list"):
        i = self.nid()
        st.set(("L", i), tuple(segs))
        return RefV(i, kind)

    def list_of(self, st, values, kind="list"):
        return self.new_list(st, [("i", v) for v in values], kind)

    def new_dict(self, st, pairs):
        i = self.nid()
        d = {}
        for k, v in pairs:
            d[self.R(k, st).dig] = (k, v)
        st.set(("D", i), d)
        return RefV(i, "dict")

    # ------------------------------------------------------------ reify
    def R(self, v, st):
        if isinstance(v, T):
            return v
        if isinstance(v, TupV):
            return mk("tuple", *[self.R(x, st) for x in v.items])
        if isinstance(v, RefV):
            return self.reify_ref(v, st)
        if isinstance(v, (FuncV, BoundV, PyF)):
            return self.reify_fn(v, st)
        if isinstance(v, ClassV):
            return mk("class", v.name)
        if isinstance(v, ModV):
            return mk("ext", v.name)
        if isinstance(v, IteV):
            return ite(v.c, self.R(v.a, st), self.R(v.b, st))
        if isinstance(v, SeqV):
            if v.items is not None:
                return mk("list", *[self.R(x, st) for x in v.items])
            return self.seq_term(v, st)
        if v is MISSING:
            return mk("missing")
        raise Undecided("cannot reify %r" % (v,))

    def seq_term(self, s, st):
        i = self.loop_index()
        e = self.R(s.elem(i, st), st)
        if e.op == "idx" and e.args[1] is i and s.n.op == "len" and s.n.args[0] is e.args[0]:
            return e.args[0]
        return self.mk_seq(s.n, i, e)

    def loop_index(self):
        i = fresh()
        LOOPIDX.add(i.args[0])
        return i

    def norm_count(self, n, i, bodies):
        if n.op in ("len", "minlen"):
            xs = [n.args[0]] if n.op == "len" else [x.args[0] for x in n.args if x.op == "len"]
            for x in list(xs):
                if x.op == "seq" and x.args[0] is ALL:
                    xs += bases(x.args[1])
            for b in bodies:
                sb = subterms(b)
                for x in xs:
                    for t in sb.values():
                        if t.op == "idx" and t.args[0] is x and (t.args[1] is i or (
                                t.args[1].op == "tuple" and t.args[1].args and t.args[1].args[0] is i)):
                            return ALL
        return n

    def mk_seq(self, n, i, e):
        k = intval(n)
        return tm.rebuild("seq", (self.norm_count(n, i, [e]), lam([i], e)))

    def reify_ref(self, v, st, seen=()):
        if v.kind in ("list", "set", "deque"):
            segs = st.get(("L", v.id))
            if isinstance(segs, T):
                return segs
            t = self.segs_term(segs, st)
            if v.kind == "set":
                if t.op == "list":
                    return tm.rebuild("set_", t.args)
                return mk("setof", t)
            return t
        if v.kind == "dict":
            d = st.get(("D", v.id))
            if isinstance(d, T):
                return d
            return mk("dict", tuple((self.R(k, st), self.R(x, st)) for k, x in d.values()))
        if v.kind == "obj":
            if ("R", v.id) in self._reifying:
                return mk("selfref", v.cls.name)
            self._reifying.add(("R", v.id))
            try:
                fields = self.obj_fields(v, st)
                items = []
                for f in sorted(fields):
                    items.append((f, self.R(fields[f], st)))
                # eta: object whose every field is a projection of one source object
                src = None
                ok = bool(items)
                for f, x in items:
                    if x.op == "attr" and x.args[1] == f and (src is None or src is x.args[0]):
                        src = x.args[0]
                    else:
                        ok = False
                if ok and src is not None and v.cls is not None and self.typ(src) is v.cls:
                    return src
                return mk("obj", v.cls.name, tuple(items))
            finally:
                self._reifying.discard(("R", v.id))
        if v.kind == "custom":
            return self.api.reify_custom(self, v, st)
        raise Undecided("reify " + v.kind)

    _reifying = set()
    _resolving = set()

    def obj_fields(self, v, st):
        names = st.get(("OF", v.id), ())
        out = {}
        for f in names:
            x = st.get(("O", v.id, f))
            if x is not MISSING:
                out[f] = x
        return out

    def segs_term(self, segs, st):
        if isinstance(segs, T):
            return segs
        parts = []
        for k, v in segs:
            if k == "i":
                parts.append(mk("list", self.R(v, st)))
            else:
                parts.append(v)
        return cat(parts)

    def fn_params(self, f):
        """[(name, default_value|None, has_default, kind)]"""
        a = f.node.args
        pos = a.posonlyargs + a.args
        nd = len(f.defaults)
        out = []
        for j, p in enumerate(pos):
            k = j - (len(pos) - nd)
            dn = None
            if k >= 0:
                dn = (f.defaults[k], a.defaults[k])
            out.append((p.arg, dn, "pos", p.annotation))
        if a.vararg:
            out.append((a.vararg.arg, None, "var", None))
        for p, d, dn in zip(a.kwonlyargs, f.kwdefaults, a.kw_defaults):
            out.append((p.arg, (d, dn) if dn is not None else None, "kw", p.annotation))
        if a.kwarg:
            out.append((a.kwarg.arg, None, "kwvar", None))
        return out

    def reify_fn(self, v, st):
        if isinstance(v, PyF):
            if v.term is not None:
                return v.term(self, st) if callable(v.term) else v.term
            fs = [fresh() for _ in range(v.nargs)]
            child = st.fork()
            child.set(EFF, ())
            r = v.fn(self, child, list(fs), {})
            return lam(fs, self.close_result(r, child, st))
        f, extra = (v.f, 1) if isinstance(v, BoundV) else (v, 0)
        if isinstance(f, (PyF, T)):
            if isinstance(f, T):
                return mk("bound", f, self.R(v.self, st))
            return self.reify_fn(PyF(lambda I, s, a, k: f.fn(I, s, [v.self] + a, k), max(f.nargs - 1, 0)), st)
        key = (id(f.node), f.fid, extra)
        if self.stack.count(("reify",) + key) >= 1:
            return mk("recfn", f.name)
        self.stack.append(("reify",) + key)
        try:
            args, kwargs, fs = [], {}, []
            for name, dn, kind, ann in self.fn_params(f)[extra:]:
                if kind == "pos":
                    if dn is not None and not isinstance(dn[1], (ast.Constant, ast.Tuple, ast.List, ast.Dict, ast.UnaryOp)):
                        continue
                    x = fresh()
                    self.annotate(x, ann, f.mod)
                    if dn is not None:
                        kwargs[name] = x
                    else:
                        args.append(x)
                    fs.append(x)
                elif kind == "var":
                    x = fresh()
                    args.append(mk("star", x))
                    fs.append(x)
                elif kind == "kw":
                    if dn is not None and not isinstance(dn[1], (ast.Constant, ast.Tuple, ast.List, ast.Dict, ast.UnaryOp)):
                        continue
                    x = fresh()
                    self.annotate(x, ann, f.mod)
                    kwargs[name] = x
                    fs.append(x)
                else:
                    x = fresh()
                    kwargs["**"] = x
                    fs.append(x)
            return lam(fs, self.run_closed(lambda child: self.call(v, list(args), dict(kwargs), child), st))
        finally:
            self.stack.pop()

    def run_closed(self, thunk, st):
        """Run thunk in a fork; result term includes effects and persistent writes."""
        for attempt in range(3):
            base = self.n
            child = st.fork()
            anc = child.top.parent
            child.set(EFF, ())
            havoc = getattr(self, "_havoc", {})
            for k in list(self._persist(st)):
                pass
            self.last_wb = ()
            r = thunk(child)
            wb, self.last_wb = self.last_wb, ()
            writes = [k for k in changed(child.top, anc) if k != EFF and self.is_old_key(k, base)]
            return self.close_result(r, child, st, writes, wb)

    last_wb = ()
    yielded = []
    in_module_body = False

    _so = {}

    def store_only(self, fn):
        """Parameters whose elements the function overwrites in place."""
        r = self._so.get(id(fn))
        if r is None:
            ps = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
            st, reb = set(), set()
            for x in ast.walk(fn):
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    b = x.value
                    while isinstance(b, ast.Subscript):
                        b = b.value
                    if isinstance(b, ast.Name):
                        st.add(b.id)
                elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    reb.add(x.id)
                elif isinstance(x, ast.Call):
                    for a in list(x.args) + [k.value for k in x.keywords]:
                        if isinstance(a, ast.Name):
                            st.add(a.id)
            r = (fn, tuple(sorted((st & ps) - reb)))
            self._so[id(fn)] = r
        return r[1]

    def note_writes(self, f, fid, b, st):
        out = []
        for name in self.store_only(f.node):
            a, z = b.get(name), st.get((fid, name))
            if isinstance(a, T) and isinstance(z, T) and a is not z:
                out.append((a, z))
        self.last_wb = tuple(out)

    def write_back(self, nodes, fid, st):
        wb, self.last_wb = self.last_wb, ()
        for a, z in wb:
            for n, v in nodes:
                if v is not a:
                    continue
                if isinstance(n, ast.Name):
                    self.assign_name(n.id, z, fid, st)
                elif isinstance(n, ast.Attribute):
                    self.set_attr(self.ev(n.value, fid, st), n.attr, z, st)
                elif isinstance(n, ast.Subscript):
                    self.store_sub(n.value, self.ev(n.value, fid, st), self.ev(n.slice, fid, st), z, fid, st)
                break

    def _persist(self, st):
        return ()

    def is_old_key(self, k, base):
        if k[0] in ("L", "D", "O", "OF"):
            return isinstance(k[1], int) and k[1] <= base and k[0] != "OF"
        if k[0] == "A":
            return True
        if isinstance(k[0], int):       # frame variable
            return k[0] <= base
        return False

    def close_result(self, r, child, st, writes=(), wb=()):
        t = self.R(r, child)
        eff = child.get(EFF)
        e = self.segs_term(eff, child)
        ws = []
        for k in writes:
            v = child.get(k)
            if k[0] in ("L",):
                v = self.segs_term(v, child)
            elif k[0] == "D":
                v = v if isinstance(v, T) else mk("dict", tuple((self.R(a, child), self.R(b, child)) for a, b in v.values()))
            else:
                try:
                    v = self.R(v, child)
                except Undecided:
                    v = unk("write")
            lab = "var" if isinstance(k[0], int) else (k[-1] if not isinstance(k[-1], int) else k[0])
            ws.append(mk("write", str(lab), v))
        for a, z in wb:
            ws.append(mk("write", "argument", mk("pair", a, z)))
        rg, types, rest = self.strip_eff(e)
        if rg is FALSE and not rest and not ws:
            return t
        return eff_term(t, effs_term(rg, types, mk("list", *rest)), *ws)

    DROP_DO = {"print"}

    def strip_eff(self, e):
        """(condition under which it raises, exception kinds, ordered other effects)"""
        flat = []

        def walk(x, g):
            if x.op == "list":
                for y in x.args:
                    flat.append((g, y))
            elif x.op == "cat":
                for y in x.args:
                    walk(y, g)
            elif x.op == "ite":
                walk(x.args[1], and_(g, x.args[0]))
                walk(x.args[2], and_(g, not_(x.args[0])))
            else:
                flat.append((g, x))
        walk(e, TRUE)
        rg, types, rest = FALSE, set(), []
        for g, y in flat:
            if g is FALSE:
                continue
            if y.op == "raise_if":
                rg = or_(rg, and_(g, y.args[0]))
                types.add(exc_name(y.args[1]))
            elif y.op == "warn":
                continue
            elif y.op == "do" and is_print(y.args[0]):
                continue
            else:
                rest.append((g, y))
        out = rest
        return rg, tuple(sorted(types)), [y if g is TRUE else mk("when", g, y) for g, y in out]

    # ------------------------------------------------------------ merge
    def merge_val(self, c, a, b, sa, sb, st):
        if a is b:
            return a
        if a is MISSING:
            return b
        if b is MISSING:
            return a
        if isinstance(a, T) and isinstance(b, T):
            if a is UNDEF:
                return b
            if b is UNDEF:
                return a
            r = ite(c, a, b)
            ta, tb = self.typ(a), self.typ(b)
            if ta is not None and (tb is ta or b is NONE):
                self.types.setdefault(r.dig, ta)
            elif tb is not None and a is NONE:
                self.types.setdefault(r.dig, tb)
            return r
        if isinstance(a, TupV) and isinstance(b, TupV) and len(a.items) == len(b.items):
            return TupV([self.merge_val(c, x, y, sa, sb, st) for x, y in zip(a.items, b.items)])
        if isinstance(a, RefV) and isinstance(b, RefV) and a.id == b.id:
            return a
        if isinstance(a, FuncV) and isinstance(b, FuncV) and a.node is b.node and a.fid == b.fid:
            return a
        if isinstance(a, ClassV) and a is b:
            return a
        if isinstance(a, ModV) and isinstance(b, ModV) and a.name == b.name:
            return a
        return IteV(c, a, b)

    def merge_content(self, k, c, a, b, sa, sb):
        """List segments or dict contents."""
        if a is b:
            return a
        if a is MISSING:
            return b
        if b is MISSING:
            return a
        if k[0] == "L":
            if isinstance(a, tuple) and isinstance(b, tuple):
                p = 0
                while p < len(a) and p < len(b) and (a[p] is b[p] or (a[p][0] == b[p][0] and a[p][1] is b[p][1])):
                    p += 1
                ra, rb = a[p:], b[p:]
                if not ra and not rb:
                    return a
                if k != EFF and len(ra) == len(rb) and all(x[0] == "i" for x in ra + rb):
                    return a[:p] + tuple(("i", self.merge_val(c, x[1], y[1], sa, sb, None)) for x, y in zip(ra, rb))
                t = ite(c, self.segs_term(ra, sa), self.segs_term(rb, sb))
                return a[:p] + (("s", t),)
            ta = a if isinstance(a, T) else self.segs_term(a, sa)
            tb = b if isinstance(b, T) else self.segs_term(b, sb)
            return (("s", ite(c, ta, tb)),)
        if isinstance(a, dict) and isinstance(b, dict):
            out = {}
            for kk in list(a) + [x for x in b if x not in a]:
                if kk in a and kk in b:
                    out[kk] = (a[kk][0], self.merge_val(c, a[kk][1], b[kk][1], sa, sb, None))
                elif kk in a:
                    out[kk] = (a[kk][0], IteV(c, a[kk][1], MISSING) if not isinstance(a[kk][1], T) else ite(c, a[kk][1], mk("missing")))
                else:
                    out[kk] = (b[kk][0], IteV(c, MISSING, b[kk][1]) if not isinstance(b[kk][1], T) else ite(c, mk("missing"), b[kk][1]))
            return out
        ta = a if isinstance(a, T) else mk("dict", tuple((self.R(x, sa), self.R(y, sa)) for x, y in a.values()))
        tb = b if isinstance(b, T) else mk("dict", tuple((self.R(x, sb), self.R(y, sb)) for x, y in b.values()))
        return ite(c, ta, tb)

    def merge(self, c, A, B):
        """New St equal to A where c, B otherwise."""
        if c is TRUE:
            return A
        if c is FALSE:
            return B
        anc = ancestor(A.top, B.top)
        keys = changed(A.top, anc)
        for k in changed(B.top, anc):
            keys[k] = True
        L = Layer(anc)
        out = St(L, {}, TRUE)
        for k in keys:
            a, b = A.get(k), B.get(k)
            if k[0] == "A":
                # not assigned on this path: what the attribute was before
                a = self.attr0.get(k, MISSING) if a is MISSING else a
                b = self.attr0.get(k, MISSING) if b is MISSING else b
            if k[0] in ("L", "D"):
                L.data[k] = self.merge_content(k, c, a, b, A, B)
            elif k[0] == "OF":
                aa = a if a is not MISSING else ()
                bb = b if b is not MISSING else ()
                L.data[k] = tuple(aa) + tuple(x for x in bb if x not in aa)
            else:
                L.data[k] = self.merge_val(c, a, b, A, B, out)
        return out

    def adopt(self, st, other):
        st.top = other.top

    # ------------------------------------------------------------ facts
    def assume(self, st, c, val):
        if c is TRUE or c is FALSE:
            return
        if c.op == "ite":
            x, a, b = c.args
            if val:
                if b is FALSE:
                    self.assume(st, x, True)
                    self.assume(st, a, True)
                elif a is FALSE:
                    self.assume(st, x, False)
                    self.assume(st, b, True)
            else:
                if b is TRUE:
                    self.assume(st, x, True)
                    self.assume(st, a, False)
                elif a is TRUE:
                    self.assume(st, x, False)
                    self.assume(st, b, False)
            st.facts[c.dig] = val
        else:
            st.facts[c.dig] = val
            if c.op == "isnone" and val is False:
                pass

    def simp(self, st, c):
        if not st.facts or not isinstance(c, T):
            return c
        v = st.facts.get(c.dig)
        if v is not None and is_bool(c):
            return TRUE if v else FALSE
        if c.op == "ite":
            x = self.simp(st, c.args[0])
            if x is TRUE:
                return self.simp(st, c.args[1])
            if x is FALSE:
                return self.simp(st, c.args[2])
            a, b = c.args[1], c.args[2]
            a2 = self.simp(st, a) if a.op in ("ite",) or is_bool(a) else a
            b2 = self.simp(st, b) if b.op in ("ite",) or is_bool(b) else b
            if a2 is not a or b2 is not b:
                return ite(c.args[0], a2, b2)
        return c

    def resolve(self, st, v):
        """Drop branches contradicted by path facts."""
        if isinstance(v, IteV):
            c = self.simp(st, v.c)
            if c is TRUE:
                return self.resolve(st, v.a)
            if c is FALSE:
                return self.resolve(st, v.b)
            if v.a is MISSING:
                return self.resolve(st, v.b)
            if v.b is MISSING:
                return self.resolve(st, v.a)
            return v
        if isinstance(v, T) and v.op == "ite":
            r = self.simp(st, v)
            if r.op == "ite":
                if r.args[1].op == "missing":
                    return r.args[2]
                if r.args[2].op == "missing":
                    return r.args[1]
            return r
        return v

    # ------------------------------------------------------------ truth
    def truth(self, v, st):
        v = self.resolve(st, v)
        if isinstance(v, T):
            if is_bool(v):
                return self.simp(st, v)
            if v.op == "ite":
                return self.simp(st, ite(v.args[0], self.truth(v.args[1], st), self.truth(v.args[2], st)))
            if v.op == "const":
                x = v.args[0]
                if isinstance(x, str) and x.startswith("float:"):
                    return TRUE
                return TRUE if x else FALSE
            if v.op == "num":
                return TRUE if v.args[0] != 0 else FALSE
            if v.op in ("tuple", "list"):
                return TRUE if v.args else FALSE
            if v.op in ("lam", "obj", "ext", "class", "enum"):
                return TRUE
            if v.op == "len":
                return mk("truth", v.args[0])
            if v.op == "cat" and any(p.op == "list" and p.args for p in v.args):
                return TRUE
            if v.op in ("poly", "mono", "fdiv", "mod"):
                return not_(eq(v, ZERO))
            ty = self.typ(v)
            if isinstance(ty, ClassV):
                return TRUE
            return self.simp(st, mk("truth", v))
        if isinstance(v, TupV):
            return TRUE if v.items else FALSE
        if isinstance(v, RefV):
            if v.kind in ("list", "set", "deque"):
                segs = st.get(("L", v.id))
                if isinstance(segs, T):
                    return self.truth(segs, st)
                if any(k == "i" for k, _ in segs):
                    return TRUE
                if not segs:
                    return FALSE
                return self.truth(self.segs_term(segs, st), st)
            if v.kind == "dict":
                d = st.get(("D", v.id))
                if isinstance(d, dict):
                    return TRUE if d else FALSE
                return mk("truth", d)
            return TRUE
        if isinstance(v, IteV):
            a = self.truth(v.a, st)
            b = self.truth(v.b, st)
            return ite(v.c, a, b)
        if isinstance(v, SeqV):
            return TRUE if v.items is None or v.items else FALSE
        return TRUE

    def is_none(self, v, st):
        v = self.resolve(st, v)
        if isinstance(v, T):
            if v is NONE:
                return TRUE
            if v.op == "ite":
                return self.simp(st, ite(v.args[0], self.is_none(v.args[1], st), self.is_none(v.args[2], st)))
            if v.op in ("const", "num", "tuple", "list", "dict", "poly", "mono", "lam", "obj", "ext", "cat", "seq",
                        "matmul", "set", "scatter", "len", "shape", "sumover", "vmap", "class", "enum", "transpose"):
                return FALSE
            if v.op == "call" and isinstance(v.args[0], str) and v.args[0].startswith("np."):
                return FALSE
            if self.typ(v) is not None:
                return FALSE
            if v.op == "idx" and v.args[0].op == "dictof" and v.args[0].args[0].op == "seq":
                # a stored value of a dictionary whose values are never None
                l = v.args[0].args[0].args[-1]
                if l.op == "lam" and l.args[0] == 1 and l.args[2].op == "tuple" and len(l.args[2].args) == 2:
                    i = fresh()
                    w = tm.apply_lam(l, [i]).args[1]
                    if w is i or self.is_none(w, st) is FALSE:
                        return FALSE
            return self.simp(st, mk("isnone", v))
        if isinstance(v, IteV):
            return ite(v.c, self.is_none(v.a, st), self.is_none(v.b, st))
        if v is MISSING:
            return TRUE
        return FALSE

    # ------------------------------------------------------------ names
    def lookup(self, name, fid, st):
        f = self.frames.get(fid)
        while f is not None:
            if f.locals is None:        # module
                m = f.mod
                if name in m.mutated_globals and m.state != "loading":
                    return mk("global", m.name + "." + name)
                if name in m.env:
                    return m.env[name]
                if m.state == "loading":
                    v = self.mod_attr(m.name, name)
                    if not (isinstance(v, T) and v.op == "ext"):
                        return v
                break
            if name in f.locals:
                v = st.get((f.fid, name))
                if v is MISSING:
                    return UNDEF
                return self.resolve(st, v)
            f = self.frames.get(f.parent)
        return mk("ext", "builtins." + name)

    def assign_name(self, name, v, fid, st):
        f = self.frames[fid]
        while f is not None:
            if f.locals is None:
                f.mod.env[name] = v
                if f.mod.state == "loaded":
                    pass
                return
            if name in f.locals:
                st.set((f.fid, name), v)
                return
            f = self.frames.get(f.parent)

    def is_global_decl(self, name, fid):
        f = self.frames[fid]
        while f is not None:
            if f.locals is None:
                return True
            if name in f.locals:
                return False
            f = self.frames.get(f.parent)
        return True

    # ------------------------------------------------------------ functions
    def make_func(self, node, fid, st, cls=None):
        fr = self.frames[fid]
        a = node.args
        defaults = [self.ev(d, fid, st) for d in a.defaults]
        kwd = [self.ev(d, fid, st) if d is not None else None for d in a.kw_defaults]
        name = getattr(node, "name", "<lambda>")
        base = cls.qual if cls is not None else fr.mod.name
        qual = base + "." + name if (fr.locals is None or cls is not None) else base + ".<local>." + name
        return FuncV(node, fr.mod, fid, cls, defaults, kwd, qual)

    def annotate(self, t, ann, mod):
        if ann is None or not isinstance(t, T):
            return
        c = self.ann_class(ann, mod)
        if c is not None:
            self.types.setdefault(t.dig, c)

    def ann_class(self, ann, mod):
        try:
            if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
                ann = ast.parse(ann.value, mode="eval").body
            if isinstance(ann, ast.Name):
                v = self.lookup(ann.id, mod.fid, self.new_state()) if mod.fid in self.frames else None
                if v is None or not isinstance(v, ClassV):
                    v = self.find_class(ann.id, mod)
                return v if isinstance(v, ClassV) else None
            if isinstance(ann, ast.Attribute):
                v = self.find_class(ann.attr, mod)
                return v if isinstance(v, ClassV) else None
            if isinstance(ann, ast.Subscript) and isinstance(ann.value, ast.Name):
                if ann.value.id in ("List", "list", "Tuple", "tuple", "Sequence"):
                    sl = ann.slice
                    if isinstance(sl, ast.Tuple) and sl.elts:
                        sl = sl.elts[0]
                    c = self.ann_class(sl, mod)
                    return ("list", c) if c is not None else None
        except SyntaxError:
            return None
        return None

    def find_class(self, name, mod):
        """Class imported under TYPE_CHECKING or by name anywhere in the project."""
        for m in self.prog.modules.values():
            if not m.name.startswith("feax"):
                continue
            for s in m.tree.body:
                if isinstance(s, ast.ClassDef) and s.name == name:
                    v = self.mod_attr(m.name, name)
                    return v if isinstance(v, ClassV) else None
        return None

    def bind(self, f, args, kwargs, st, skip=0):
        params = self.fn_params(f)
        out = {}
        args = list(args)
        kwargs = dict(kwargs)
        starred = [a for a in args if isinstance(a, T) and a.op == "star"]
        pos = [p for p in params if p[2] == "pos"]
        var = [p for p in params if p[2] == "var"]
        kwvar = [p for p in params if p[2] == "kwvar"]
        if starred:
            # positional expansion of an unknown-length sequence
            new = []
            for k, a in enumerate(args):
                if isinstance(a, T) and a.op == "star":
                    need = len(pos) - len(new)
                    if var and need <= 0:
                        new.append(a)
                    else:
                        need_req = len([p for p in pos[len(new):] if p[0] not in kwargs])
                        later = len(args) - k - 1
                        take = max(0, need_req - later)
                        for j in range(take):
                            new.append(idx(a.args[0], num(j)))
                        if var:
                            new.append(mk("star", idx(a.args[0], slice_(num(take), NONE, NONE))))
                else:
                    new.append(a)
            args = new
        for p in pos:
            if args:
                if isinstance(args[0], T) and args[0].op == "star":
                    break
                out[p[0]] = args.pop(0)
            elif p[0] in kwargs:
                out[p[0]] = kwargs.pop(p[0])
            elif p[1] is not None:
                out[p[0]] = p[1][0]
            elif "**" in kwargs:
                out[p[0]] = idx(self.R(kwargs["**"], st), const(p[0]))
            else:
                raise Undecided("missing argument %s of %s" % (p[0], f.qual))
        if var:
            if len(args) == 1 and isinstance(args[0], T) and args[0].op == "star":
                out[var[0][0]] = args[0].args[0]
            elif any(isinstance(a, T) and a.op == "star" for a in args):
                segs = [("s", a.args[0]) if isinstance(a, T) and a.op == "star" else ("i", a) for a in args]
                out[var[0][0]] = self.segs_term(tuple(segs), st)
            else:
                out[var[0][0]] = TupV(args)
        elif args and not all(isinstance(a, T) and a.op == "star" for a in args):
            raise Undecided("too many arguments for " + f.qual)
        for p in params:
            if p[2] == "kw":
                if p[0] in kwargs:
                    out[p[0]] = kwargs.pop(p[0])
                elif p[1] is not None:
                    out[p[0]] = p[1][0]
                elif "**" in kwargs:
                    out[p[0]] = idx(self.R(kwargs["**"], st), const(p[0]))
                else:
                    raise Undecided("missing kw argument %s of %s" % (p[0], f.qual))
        if kwvar:
            if "**" in kwargs and len(kwargs) == 1:
                out[kwvar[0][0]] = kwargs["**"]
            elif "**" in kwargs:
                base = self.R(kwargs.pop("**"), st)
                for k, v in kwargs.items():
                    base = mk("set", base, const(k), self.R(v, st))
                out[kwvar[0][0]] = base
            else:
                out[kwvar[0][0]] = self.new_dict(st, [(const(k), v) for k, v in kwargs.items()])
        elif kwargs and set(kwargs) != {"**"}:
            raise Undecided("unexpected keyword %s for %s" % (sorted(kwargs), f.qual))
        return out

    def opaque_label(self, f):
        q = self.aliases.get(f.qual, f.qual)
        if q in self.opaque:
            return q
        return None

    def opaque_call(self, q, f, args, kwargs, st, self_val=None):
        try:
            b = self.bind(f, ([self_val] if self_val is not None else []) + list(args), kwargs, st)
        except Undecided as e:
            return unk(str(e))
        kw = []
        for name, dn, kind, ann in self.fn_params(f):
            v = b[name]
            t = self.R(v, st)
            if dn is not None:
                d = self.R(dn[0], st)
                if d is t:
                    continue
            if kind in ("var",) and t.op == "tuple" and not t.args:
                continue
            if kind == "kwvar" and t.op == "dict" and not t.args[0]:
                continue
            kw.append((name, t))
        r = mk("call", q, (), tuple(sorted(kw, key=lambda p: p[0])))
        k = self.opaque[q]
        if k == "raise":
            self.effect(st, mk("raise_if", mk("truth", mk("raises", r)), const("callee")))
        elif k == "eff":
            self.effect(st, mk("do", r))
        ret = getattr(f.node, "returns", None)
        if ret is not None:
            self.annotate(r, ret, f.mod)
        h = self.hints.get(("ret", q))
        if h:
            c = self.find_class(h, None)
            if c is not None:
                self.types.setdefault(r.dig, c)
        return r

    def call_func(self, f, args, kwargs, st, self_val=None):
        q = self.opaque_label(f)
        if q is not None and self.opaque[q] == "self":
            if self_val is not None and isinstance(self_val, RefV) and self_val.kind == "obj" and not args and not kwargs \
                    and self.summarised_init(f, self_val.cls, self_val, st):
                return NONE
        elif q is not None and (len(self.stack) > 0 or getattr(self, "_force_opaque", False)):
            return self.opaque_call(q, f, args, kwargs, st, self_val)
        if self_val is not None:
            args = [self_val] + list(args)
        if f.kind == "generator" or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in self.own_nodes(f.node)):
            if self.stack:
                ts = tuple(self.R(a, st) for a in args)
                return mk("call", "gen:" + (f.qual if f.qual.startswith("feax.") and "<" not in f.qual else ast_digest(f.node)), ts, tuple(sorted((k, self.R(v, st)) for k, v in kwargs.items())))
        if self.stack.count(("call", id(f.node))) >= 2 or len(self.stack) > self.MAXDEPTH:
            ts = tuple(self.R(a, st) for a in args)
            return mk("call", "rec:" + f.name, ts, tuple(sorted(((k, self.R(v, st)) for k, v in kwargs.items()), key=lambda p: p[0])))
        b = self.bind(f, args, kwargs, st)
        fid = self.nid()
        loc = set(local_names(f.node))
        fr = Frame(fid, f.fid, f.mod, loc, f.cls)
        if self_val is not None:
            fr.self = self_val
        elif f.cls is not None and args:
            fr.self = args[0]
        self.frames[fid] = fr
        for k, v in b.items():
            st.set((fid, k), v)
        for name, dn, kind, ann in self.fn_params(f):
            v = b.get(name)
            if isinstance(v, T) and ann is not None:
                if v.op in ("sym", "fv", "attr", "idx", "call"):
                    self.annotate(v, ann, f.mod)
            elif isinstance(v, T) and ("param", name) in self.hints and v.op in ("sym", "fv"):
                c = self.find_class(self.hints[("param", name)], None)
                if c is not None:
                    self.types.setdefault(v.dig, c)
        if f.qual not in self.analysed and f.mod.name.startswith("feax"):
            self.analysed[f.qual] = "%s:%d" % (f.mod.path, f.node.lineno)
        self.stack.append(("call", id(f.node)))
        saveloc = CUR["loc"]
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fid, st)
            facts0, path0 = dict(st.facts), st.path
            falls, exits = self.exec_block(f.node.body, fid, st)
            r = self.fold_exits(falls, exits, st, facts0, path0)
            self.note_writes(f, fid, b, st)
            if self.yielded and len(self.stack) == 1:
                # state of what a generator handed out, once it has finished
                r, self.yielded = TupV([r] + list(self.yielded)), []
            return r
        finally:
            self.stack.pop()
            CUR["loc"] = saveloc

    def fold_exits(self, falls, exits, st, facts0, path0):
        rets, raises = [], []
        notprev = TRUE
        for e in exits:
            if e.kind == "raise":
                raises.append((and_(notprev, e.g), e.val))
            elif e.kind == "return":
                rets.append(e)
            notprev = and_(notprev, not_(e.g))
        items = [(e.g, e.val, e.st) for e in rets]
        if falls:
            items.append((TRUE, NONE, st))
        if not items:
            # function always raises
            st.facts, st.path = facts0, path0
            for g, x in raises:
                self.effect(st, mk("raise_if", g, x))
            return mk("bottom")
        g, val, cur = items[-1]
        for g, v, s in reversed(items[:-1]):
            m = self.merge(g, s, cur)
            val = self.merge_val(g, v, val, s, cur, m)
            cur = m
        self.adopt(st, cur)
        st.facts, st.path = facts0, path0
        if st.top.parent is None:
            raise Undecided("root")
        st.top = Layer(st.top)
        for g, x in raises:
            if g is not FALSE:
                self.effect(st, mk("raise_if", g, x))
                self.assume(st, g, False)
        return val

    def enum_is_int(self, t):
        for m in self.prog.modules.values():
            for n in m.tree.body:
                if isinstance(n, ast.ClassDef) and n.name == t.args[0]:
                    return any("Int" in ast.unparse(b) or ast.unparse(b) == "int" for b in n.bases)
        return True

    def effect(self, st, t):
        segs = st.get(EFF)
        if segs is MISSING:
            segs = ()
        st.set(EFF, segs + (("i", t),))

    _own = {}

    def own_nodes(self, fn):
        r = self._own.get(id(fn))
        if r is not None:
            return r[1]
        out = []

        def walk(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                    continue
                out.append(c)
                walk(c)
        walk(fn)
        self._own[id(fn)] = (fn, out)
        return out

    def call(self, f, args, kwargs, st, node=None):
        self.callsites += 1
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Undecided("step budget")
        f = self.resolve(st, f)
        if isinstance(f, FuncV):
            if f.kind == "static":
                return self.call_func(f, args, kwargs, st)
            return self.call_func(f, args, kwargs, st)
        if isinstance(f, BoundV):
            if isinstance(f.f, FuncV):
                return self.call_func(f.f, args, kwargs, st, self_val=f.self)
            return self.call(f.f, [f.self] + list(args), kwargs, st, node)
        if isinstance(f, PyF):
            return f.fn(self, st, list(args), dict(kwargs))
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs, st)
        if isinstance(f, IteV):
            return self.branch(f.c, st, lambda s: self.call(f.a, args, kwargs, s, node),
                               lambda s: self.call(f.b, args, kwargs, s, node))
        if isinstance(f, RefV):
            if f.kind == "custom":
                return self.api.call_custom(self, f, args, kwargs, st)
            if f.kind == "obj":
                m = f.cls.find("__call__")
                if m is not None:
                    return self.call_func(m, args, kwargs, st, self_val=f)
            raise Undecided("call of " + f.kind)
        if isinstance(f, ModV):
            raise Undecided("call of module")
        if isinstance(f, T):
            return self.call_term(f, args, kwargs, st, node)
        raise Undecided("call of %r" % (f,))

    def branch(self, c, st, fa, fb):
        c = self.simp(st, c)
        if c is TRUE:
            return fa(st)
        if c is FALSE:
            return fb(st)
        sa, sb = st.fork(), st.fork()
        self.assume(sa, c, True)
        self.assume(sb, c, False)
        va = fa(sa)
        vb = fb(sb)
        if isinstance(va, T) and va.op == "bottom":
            self.adopt(st, sb)
            return vb
        if isinstance(vb, T) and vb.op == "bottom":
            self.adopt(st, sa)
            return va
        m = self.merge(c, sa, sb)
        v = self.merge_val(c, va, vb, sa, sb, m)
        self.adopt(st, m)
        st.top = Layer(st.top)
        return v

    def call_term(self, f, args, kwargs, st, node=None):
        if f.op == "ite":
            return self.branch(f.args[0], st, lambda s: self.call(f.args[1], args, kwargs, s, node),
                               lambda s: self.call(f.args[2], args, kwargs, s, node))
        if f.op == "ext":
            return self.api.call_ext(self, f.args[0], args, kwargs, st, node)
        if f.op == "attr":
            base = f.args[0]
            cls = self.typ(base)
            return self.api.call_method(self, base, f.args[1], args, kwargs, st, node)
        if f.op == "lam" and not kwargs and f.args[0] == len(args):
            pass
        cls = self.typ(f)
        if isinstance(cls, ClassV):
            m = cls.find("__call__")
            if m is not None and isinstance(m, FuncV):
                return self.call_func(m, args, kwargs, st, self_val=f)
        if f.op == "class":
            raise Undecided("class term call")
        return self.api.generic(self, f, args, kwargs, st)

    # ------------------------------------------------------------ classes
    def make_class(self, node, fid, st):
        fr = self.frames[fid]
        c = ClassV(node, fr.mod, fr.mod.name + "." + node.name)
        for b in node.bases:
            try:
                bv = self.ev(b, fid, st)
            except Undecided:
                continue
            if isinstance(bv, ClassV):
                c.bases.append(bv)
                c.is_dataclass |= bv.is_dataclass
                c.is_namedtuple |= bv.is_namedtuple
                c.is_enum |= bv.is_enum
            elif isinstance(bv, T) and bv.op == "ext":
                if bv.args[0].endswith("NamedTuple"):
                    c.is_namedtuple = True
                if bv.args[0].split(".")[-1] in ("Enum", "IntEnum", "StrEnum"):
                    c.is_enum = True
        for d in node.decorator_list:
            dn = d.func if isinstance(d, ast.Call) else d
            nm = dn.attr if isinstance(dn, ast.Attribute) else getattr(dn, "id", "")
            if nm == "dataclass":
                c.is_dataclass = True
        cfid = self.nid()
        names = set()
        for s in node.body:
            for t in ast.walk(s) if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else [s]:
                if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                    names.add(t.id)
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                names.add(s.name)
        self.frames[cfid] = Frame(cfid, fid, fr.mod, names, c)
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                f = self.make_func(s, fid, st, cls=c)
                for d in s.decorator_list:
                    nm = d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", "")
                    if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
                        f = None
                        break
                    if nm in ("property", "cached_property"):
                        f.kind = "property"
                    elif nm == "staticmethod":
                        f.kind = "static"
                    elif nm == "classmethod":
                        f.kind = "class"
                    elif nm in ("abstractmethod",):
                        pass
                    else:
                        try:
                            g = self.apply_decorator(self.ev(d, fid, st), f, st)
                            f = g
                        except Undecided:
                            pass
                if f is not None:
                    c.attrs[s.name] = f
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                c.ann[s.target.id] = s.annotation
                isclassvar = "ClassVar" in ast.dump(s.annotation)
                if not isclassvar:
                    c.fields.append((s.target.id, s.value, s.annotation))
                if s.value is not None:
                    try:
                        c.attrs[s.target.id] = self.ev(s.value, cfid, st)
                    except Undecided:
                        c.attrs[s.target.id] = unk("classattr")
                    st.set((cfid, s.target.id), c.attrs[s.target.id])
            elif isinstance(s, ast.Assign):
                try:
                    v = self.ev(s.value, cfid, st)
                except Undecided:
                    v = unk("classattr")
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        if c.is_enum:
                            v = mk("enum", c.name, t.id, self.R(v, st))
                        c.attrs[t.id] = v
                        st.set((cfid, t.id), v)
            elif isinstance(s, ast.ClassDef):
                c.attrs[s.name] = self.make_class(s, cfid, st)
        for d in node.decorator_list:
            try:
                dv = self.ev(d, fid, st)
            except Undecided:
                continue
        return c

    def field_default(self, cls, fld, st):
        name, dn, ann = fld
        if dn is None:
            return None
        if isinstance(dn, ast.Call):
            fn = dn.func.attr if isinstance(dn.func, ast.Attribute) else getattr(dn.func, "id", "")
            if fn == "field":
                for kw in dn.keywords:
                    if kw.arg == "default":
                        return self.ev(kw.value, cls.mod.fid, st)
                    if kw.arg == "default_factory":
                        return self.call(self.ev(kw.value, cls.mod.fid, st), [], {}, st)
                return None
        for c in cls.mro():
            if any(f[0] == name and f[1] is dn for f in c.fields):
                return self.ev(dn, c.mod.fid, st)
        return self.ev(dn, cls.mod.fid, st)

    def summarised_init(self, post, cls, ref, st):
        """Replace the effect of a large __post_init__ by one summary term of the object's fields."""
        q = self.opaque_label(post)
        if q is None or self.opaque[q] != "self" or not self.stack:
            return False
        own = post.cls
        over = set()
        for c in cls.mro():
            if c is own:
                break
            over |= set(c.attrs)
        seen, todo = set(), [post.node]
        while todo:
            for n in ast.walk(todo.pop()):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and n.attr not in seen:
                    seen.add(n.attr)
                    m = own.find(n.attr)
                    if isinstance(m, FuncV):
                        todo.append(m.node)
        if seen & over:
            return False
        flds = tuple(sorted(((k, self.R(x, st)) for k, x in self.obj_fields(ref, st).items()), key=lambda p: p[0]))
        r = mk("call", q, (), (("self", mk("obj", own.name, flds)),))
        self.effect(st, mk("do", r))
        self.types.setdefault(r.dig, cls)
        for k in list(st.get(("OF", ref.id), ())):
            self.set_attr(ref, k, mk("attr", r, k), st)
        self.set_attr(ref, "__base__", r, st)
        return True

    def instantiate(self, cls, args, kwargs, st):
        q = cls.qual
        if q in self.opaque and self.stack:
            kw = tuple(sorted(((k, self.R(v, st)) for k, v in kwargs.items()), key=lambda p: p[0]))
            init = cls.find("__init__")
            if isinstance(init, FuncV):
                r = self.opaque_call(q, init, args, kwargs, st, self_val=NONE)
            else:
                names = [f[0] for f in cls.all_fields()]
                kws = [(n, self.R(a, st)) for n, a in zip(names, args)] + [(k, self.R(v, st)) for k, v in kwargs.items()]
                r = mk("call", q, (), tuple(sorted(kws, key=lambda p: p[0])))
            self.types.setdefault(r.dig, cls)
            return r
        if cls.is_enum:
            x = self.R(args[0], st)
            for k, v in cls.attrs.items():
                if isinstance(v, T) and v.op == "enum" and v.args[2] is x:
                    return v
            return mk("call", cls.name, (x,), ())
        oid = self.nid()
        ref = RefV(oid, "obj", cls)
        st.set(("OF", oid), ())
        init = cls.find("__init__")
        if init is None and (cls.is_dataclass or cls.is_namedtuple):
            flds = cls.all_fields()
            kwargs = dict(kwargs)
            args = list(args)
            if args and isinstance(args[-1], T) and args[-1].op == "star":
                base = args.pop().args[0]
                n = len([f for f in flds if not (isinstance(f[1], ast.Call) and any(kw.arg == "init" for kw in f[1].keywords))])
                names = [f[0] for f in flds]
                k0 = len(args)
                for j in range(k0, n):
                    if names[j] in kwargs:
                        break
                    args.append(idx(base, num(j - k0)))
            for f in flds:
                if isinstance(f[1], ast.Call) and any(kw.arg == "init" for kw in f[1].keywords):
                    continue
                if args:
                    v = args.pop(0)
                elif f[0] in kwargs:
                    v = kwargs.pop(f[0])
                elif "**" in kwargs and f[1] is None:
                    v = idx(self.R(kwargs["**"], st), const(f[0]))
                elif "**" in kwargs:
                    v = mk("call", "kwget", (self.R(kwargs["**"], st), const(f[0]), self.R(self.field_default(cls, f, st), st)), ())
                else:
                    v = self.field_default(cls, f, st)
                    if v is None:
                        raise Undecided("missing field %s of %s" % (f[0], cls.name))
                self.set_attr(ref, f[0], v, st)
                if isinstance(v, T) and v.op in ("sym", "fv", "attr", "idx", "call"):
                    self.annotate(v, f[2], cls.mod)
            if args or set(kwargs) - {"**"}:
                raise Undecided("bad construction of " + cls.name)
            post = cls.find("__post_init__")
            if isinstance(post, FuncV):
                if not self.summarised_init(post, cls, ref, st):
                    self.call_func(post, [], {}, st, self_val=ref)
            return ref
        if isinstance(init, FuncV):
            self.call_func(init, args, kwargs, st, self_val=ref)
            return ref
        if cls.bases or args or kwargs:
            if args or kwargs:
                t = mk("call", "new:" + cls.name, tuple(self.R(a, st) for a in args),
                       tuple(sorted(((k, self.R(v, st)) for k, v in kwargs.items()), key=lambda p: p[0])))
                self.types.setdefault(t.dig, cls)
                return t
        return ref

    # ------------------------------------------------------------ attributes
    def get_attr(self, v, name, st, node=None):
        v = self.resolve(st, v)
        if isinstance(v, ModV):
            return self.mod_attr(v.name, name)
        if isinstance(v, SuperV):
            return v.getter(name)
        if isinstance(v, RefV) and v.kind == "obj":
            x = st.get(("O", v.id, name))
            if x is not MISSING:
                return self.resolve(st, x)
            m = v.cls.find(name)
            if m is not None:
                return self.bind_member(m, v, v.cls, st)
            if name == "__class__":
                return v.cls
            if name == "_replace" and v.cls.is_namedtuple:
                return PyF(lambda I, s, a, k: I.api.replace_obj(I, v, k, s))
            if name == "_fields":
                return TupV([const(f[0]) for f in v.cls.all_fields()])
            if name == "__dict__":
                return self.new_dict(st, [(const(k), x) for k, x in self.obj_fields(v, st).items()])
            ga = v.cls.find("__getattr__")
            if ga is not None:
                return self.call_func(ga, [const(name)], {}, st, self_val=v)
            base = st.get(("O", v.id, "__base__"))
            if base is not MISSING and isinstance(base, T):
                return self.get_attr(base, name, st)
            return mk("attr", mk("objref", v.cls.name), name)
        if isinstance(v, RefV):
            return BoundV(mk("ext", "meth:" + v.kind + "." + name), v)
        if isinstance(v, ClassV):
            if name == "__name__":
                return const(v.name)
            m = v.find(name)
            if m is not None:
                if isinstance(m, FuncV) and m.kind == "class":
                    return BoundV(m, v)
                return m
            if name == "__members__":
                return self.new_dict(st, [(const(k), x) for k, x in v.attrs.items() if isinstance(x, T) and x.op == "enum"])
            return mk("attr", mk("class", v.name), name)
        if isinstance(v, (TupV, SeqV)):
            return BoundV(mk("ext", "meth:tuple." + name), v)
        if isinstance(v, IteV):
            return self.branch(v.c, st, lambda s: self.get_attr(v.a, name, s), lambda s: self.get_attr(v.b, name, s))
        if isinstance(v, (FuncV, BoundV, PyF)):
            if name == "__name__":
                return const(getattr(v, "name", "fn"))
            if name in ("defvjp", "defjvp"):
                return PyF(lambda I, s, a, k: NONE)
            if name == "__wrapped__" or name == "__func__":
                return v
            if name == "lower" or name == "cache_clear":
                return PyF(lambda I, s, a, k: NONE)
            return mk("attr", self.R(v, st), name)
        if isinstance(v, T):
            o = st.get(("A", v.dig, name))
            if o is not MISSING:
                return self.resolve(st, o)
            if v.op == "ext":
                return mk("ext", canon(v.args[0] + "." + name))
            if v.op == "obj":
                for f, x in v.args[1]:
                    if f == name:
                        return x
            if v.op == "enum":
                if name == "value":
                    return v.args[2]
                if name == "name":
                    return const(v.args[1])
            if v.op == "ite":
                return self.branch(v.args[0], st, lambda s: self.get_attr(v.args[1], name, s),
                                   lambda s: self.get_attr(v.args[2], name, s))
            cls = self.typ(v)
            if isinstance(cls, ClassV):
                m = cls.find(name)
                isfield = any(f[0] == name for f in cls.all_fields())
                if m is not None and not isfield:
                    if self.extensible(cls):
                        if isinstance(m, T):
                            return mk("attr", v, name)      # a subclass may set it
                        if isinstance(m, FuncV) and m.kind == "func" and hook(m.node):
                            t = mk("attr", v, name)
                            self.virtual.add(t.dig)
                            return t
                    return self.bind_member(m, v, cls, st)
                t = mk("attr", v, name)
                ann, amod = cls.annotation(name)
                if ann is not None:
                    self.annotate(t, ann, amod)
                h = None
                for c in cls.mro():
                    h = h or self.hints.get((c.name, name))
                if h:
                    self.set_hint(t, h)
                return t
            if v is NONE:
                return mk("attr", v, name)
            r = self.api.term_attr(self, v, name, st)
            if r is not None:
                return r
            t = mk("attr", v, name)
            h = self.hints.get(("attr", name))
            if h:
                self.set_hint(t, h)
            return t
        raise Undecided("attribute %s of %r" % (name, v))

    def set_hint(self, t, h):
        if isinstance(h, str) and h.startswith("list:"):
            c = self.find_class(h[5:], None)
            if c is not None:
                self.types.setdefault(t.dig, ("list", c))
        else:
            c = self.find_class(h, None)
            if c is not None:
                self.types.setdefault(t.dig, c)

    def extensible(self, cls):
        """Meant to be subclassed by users: it declares hooks."""
        r = self.ext_cls.get(cls.name)
        if r is None:
            r = any(isinstance(x, FuncV) and hook(x.node) and k not in ("__init__", "__post_init__")
                    for c in cls.mro() for k, x in c.attrs.items())
            self.ext_cls[cls.name] = r
        return r

    def bind_member(self, m, v, cls, st):
        if isinstance(m, FuncV):
            if m.kind == "property":
                return self.call_func(m, [], {}, st, self_val=v)
            if m.kind == "static":
                return m
            if m.kind == "class":
                return BoundV(m, cls)
            return BoundV(m, v)
        if isinstance(m, (PyF,)):
            return BoundV(m, v)
        if isinstance(m, RefV) and m.kind == "custom":
            return BoundV(m, v)
        return m

    def set_attr(self, v, name, x, st):
        v = self.resolve(st, v)
        if isinstance(v, RefV) and v.kind == "obj":
            of = st.get(("OF", v.id), ())
            if name not in of:
                st.set(("OF", v.id), tuple(of) + (name,))
            st.set(("O", v.id, name), x)
            return
        if isinstance(v, T):
            k = ("A", v.dig, name)
            if k not in self.attr0 and st.get(k) is MISSING:
                try:
                    self.attr0[k] = self.get_attr(v, name, st.fork())
                except Undecided:
                    self.attr0[k] = MISSING
            st.set(k, x)
            try:
                xt = self.R(x, st)
            except Undecided:
                xt = unk("setattr")
            self.effect(st, mk("setattr", v, name, xt))
            return
        if isinstance(v, IteV):
            for s_, w in ((v.c, v.a), (None, v.b)):
                pass
            sa, sb = st.fork(), st.fork()
            self.set_attr(v.a, name, x, sa)
            self.set_attr(v.b, name, x, sb)
            self.adopt(st, self.merge(v.c, sa, sb))
            st.top = Layer(st.top)
            return
        if isinstance(v, ClassV):
            self.effect(st, mk("setattr", mk("class", v.name), name, self.R(x, st)))
            return
        if isinstance(v, (FuncV, PyF, BoundV, ModV)):
            return
        raise Undecided("setattr on %r" % (v,))

    # ------------------------------------------------------------ expressions
    def ev(self, node, fid, st):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Undecided("step budget")
        self.loc(node, fid)
        m = getattr(self, "ev_" + type(node).__name__, None)
        if m is None:
            return self.opaque_syntax(node, fid, st)
        return m(node, fid, st)

    def opaque_syntax(self, node, fid, st):
        names = sorted({n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)})
        deps = []
        for n in names:
            try:
                deps.append(self.R(self.lookup(n, fid, st), st))
            except Undecided:
                pass
        return unk("syntax:" + ast_digest(node), *deps)

    def ev_Constant(self, n, fid, st):
        return const(n.value)

    def ev_Held(self, n, fid, st):
        return n.val

    def ev_Name(self, n, fid, st):
        return self.lookup(n.id, fid, st)

    def ev_Tuple(self, n, fid, st):
        return self.build_seq(n.elts, fid, st, "tuple")

    def ev_List(self, n, fid, st):
        return self.build_seq(n.elts, fid, st, "list")

    def ev_Set(self, n, fid, st):
        return self.build_seq(n.elts, fid, st, "set")

    def build_seq(self, elts, fid, st, kind):
        segs = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, fid, st)
                items = self.known_items(v, st)
                if items is not None:
                    segs.extend(("i", x) for x in items)
                else:
                    segs.extend(self.as_segs(v, st))
            else:
                segs.append(("i", self.ev(e, fid, st)))
        if kind == "tuple":
            if all(k == "i" for k, _ in segs):
                return TupV([v for _, v in segs])
            return self.segs_term(tuple(segs), st)
        return self.new_list(st, segs, kind)

    def as_segs(self, v, st):
        v = self.resolve(st, v)
        items = self.known_items(v, st)
        if items is not None:
            return tuple(("i", x) for x in items)
        if isinstance(v, RefV) and v.kind in ("list", "set", "deque"):
            s = st.get(("L", v.id))
            if isinstance(s, T):
                return (("s", s),)
            return s
        t = self.R(v, st)
        if t.op == "cat":
            out = []
            for p in t.args:
                if p.op == "list":
                    out.extend(("i", x) for x in p.args)
                else:
                    out.append(("s", p))
            return tuple(out)
        return (("s", t),)

    def ev_Dict(self, n, fid, st):
        i = self.nid()
        d = {}
        cur = d
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.resolve(st, self.ev(v, fid, st))
                c = st.get(("D", x.id)) if isinstance(x, RefV) and x.kind == "dict" else self.R(x, st)
                if isinstance(c, dict) and isinstance(cur, dict):
                    cur.update(c)
                elif isinstance(c, T) and c.op == "dict" and isinstance(cur, dict):
                    for kk, vv in c.args[0]:
                        cur[kk.dig] = (kk, vv)
                else:
                    base = cur if isinstance(cur, T) else mk("dict", tuple((self.R(a, st), self.R(b, st)) for a, b in cur.values()))
                    c = c if isinstance(c, T) else mk("dict", tuple((self.R(a, st), self.R(b, st)) for a, b in c.values()))
                    cur = c if base.op == "dict" and not base.args[0] else mk("dictmerge", base, c)
            else:
                kv = self.ev(k, fid, st)
                vv = self.ev(v, fid, st)
                if isinstance(cur, dict):
                    cur[self.R(kv, st).dig] = (kv, vv)
                else:
                    cur = mk("set", cur, self.R(kv, st), self.R(vv, st))
        st.set(("D", i), cur)
        return RefV(i, "dict")

    def ev_Starred(self, n, fid, st):
        return mk("star", self.R(self.ev(n.value, fid, st), st))

    def ev_JoinedStr(self, n, fid, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                try:
                    x = self.ev(v.value, fid, st)
                    t = self.R(x, st) if not isinstance(x, (FuncV, PyF, BoundV)) else const("fn")
                except Undecided:
                    t = unk("fstr")
                sp = ast.dump(v.format_spec) if v.format_spec is not None else ""
                if not sp and v.conversion == -1:
                    if t.op == "const" and isinstance(t.args[0], str):
                        parts.append(t)
                        continue
                    k = intval(t)
                    if k is not None:
                        parts.append(const(str(k)))
                        continue
                parts.append(mk("fmt", t, sp, v.conversion) if sp or v.conversion != -1 else mk("fmt", t))
        return self.api.fstr(parts)

    def ev_FormattedValue(self, n, fid, st):
        return self.ev(n.value, fid, st)

    def ev_Attribute(self, n, fid, st):
        v = self.ev(n.value, fid, st)
        return self.get_attr(v, n.attr, st, n)

    def ev_Lambda(self, n, fid, st):
        return self.make_func(n, fid, st)

    def ev_NamedExpr(self, n, fid, st):
        v = self.ev(n.value, fid, st)
        self.assign(n.target, v, fid, st)
        return v

    def ev_IfExp(self, n, fid, st):
        c = self.truth(self.ev(n.test, fid, st), st)
        return self.branch(c, st, lambda s: self.ev(n.body, fid, s), lambda s: self.ev(n.orelse, fid, s))

    def ev_BoolOp(self, n, fid, st):
        return self.boolop(n.values, isinstance(n.op, ast.And), fid, st)

    def boolop(self, vals, is_and, fid, st):
        v = self.ev(vals[0], fid, st)
        if len(vals) == 1:
            return v
        c = self.truth(v, st)
        if is_and:
            return self.branch(c, st, lambda s: self.boolop(vals[1:], is_and, fid, s),
                               lambda s: FALSE if isinstance(v, T) and is_bool(v) else v)
        return self.branch(c, st, lambda s: TRUE if isinstance(v, T) and is_bool(v) else v,
                           lambda s: self.boolop(vals[1:], is_and, fid, s))

    def ev_UnaryOp(self, n, fid, st):
        v = self.ev(n.operand, fid, st)
        if isinstance(n.op, ast.Not):
            return not_(self.truth(v, st))
        t = self.R(v, st)
        if isinstance(n.op, ast.USub):
            if t.op == "const" and isinstance(t.args[0], str) and t.args[0].startswith("float:"):
                x = t.args[0][6:]
                return const(float(x) * -1)
            return neg(t)
        if isinstance(n.op, ast.UAdd):
            return t
        return binv(t)

    def ev_BinOp(self, n, fid, st):
        a = self.ev(n.left, fid, st)
        b = self.ev(n.right, fid, st)
        self.loc(n, fid)
        return self.binop(type(n.op).__name__, a, b, st)

    def binop(self, op, a, b, st):
        a, b = self.resolve(st, a), self.resolve(st, b)
        for x, y, nm in ((a, b, "__%s__"), ):
            if isinstance(x, RefV) and x.kind == "obj":
                dn = DUNDER.get(op)
                m = x.cls.find("__%s__" % dn) if dn else None
                if m is not None:
                    return self.call_func(m, [y], {}, st, self_val=x)
        if isinstance(b, RefV) and b.kind == "obj" and DUNDER.get(op):
            m = b.cls.find("__r%s__" % DUNDER[op])
            if m is not None:
                return self.call_func(m, [a], {}, st, self_val=b)
        ca = self.typ(a)
        if isinstance(ca, ClassV) and DUNDER.get(op):
            m = ca.find("__%s__" % DUNDER[op])
            if isinstance(m, FuncV):
                return self.call_func(m, [b], {}, st, self_val=a)
        if op == "Add":
            if isinstance(a, TupV) and isinstance(b, TupV):
                return TupV(a.items + b.items)
            la = isinstance(a, RefV) and a.kind == "list"
            lb = isinstance(b, RefV) and b.kind == "list"
            if la or lb:
                return self.new_list(st, self.as_segs(a, st) + self.as_segs(b, st))
            if isinstance(a, TupV) or isinstance(b, TupV):
                oth = b if isinstance(a, TupV) else a
                if not (isinstance(oth, T) and oth.op in ("num", "poly", "mono")):
                    sa, sb = self.as_segs(a, st), self.as_segs(b, st)
                    if all(k == "i" for k, _ in sa + sb):
                        return TupV([v for _, v in sa + sb])
                    return self.segs_term(sa + sb, st)
            ta, tb = self.R(a, st), self.R(b, st)
            if is_strish(ta) or is_strish(tb):
                return self.api.fstr([strpart(ta), strpart(tb)])
            if ta.op in ("list", "cat", "tuple") or tb.op in ("list", "cat", "tuple"):
                if ta.op == "tuple" and tb.op == "tuple":
                    return mk("tuple", *(ta.args + tb.args))
                if ta.op in ("list", "cat", "tuple") and tb.op in ("list", "cat", "tuple", "seq"):
                    return cat([tolist(ta), tolist(tb)])
                if seqlike(ta) and seqlike(tb):
                    return cat([tolist(ta), tolist(tb)])
            return add(ta, tb)
        if op == "Mult":
            for x, y in ((a, b), (b, a)):
                k = intval(y) if isinstance(y, T) else None
                if isinstance(x, TupV):
                    if k is not None and k <= 64:
                        return TupV(x.items * k)
                    return self.repeated(self.R(x, st), self.R(y, st))
                if isinstance(x, RefV) and x.kind == "list":
                    s = st.get(("L", x.id))
                    if k is not None and k <= 64 and isinstance(s, tuple):
                        return self.new_list(st, s * k)
                    return self.repeated(self.R(x, st), self.R(y, st))
        ta, tb = self.R(a, st), self.R(b, st)
        if op == "Mod" and is_strish(ta):
            return mk("strmod", ta, tb)
        return num_binop(op, ta, tb)

    def ev_Compare(self, n, fid, st):
        left = self.ev(n.left, fid, st)
        res = None
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, fid, st)
            self.loc(n, fid)
            c = self.compare(type(op).__name__, left, right, st)
            res = c if res is None else band(res, c)
            left = right
        return self.simp(st, res) if isinstance(res, T) else res

    def compare(self, op, a, b, st):
        a, b = self.resolve(st, a), self.resolve(st, b)
        if op in ("Is", "IsNot"):
            if isinstance(b, T) and b is NONE:
                c = self.is_none(a, st)
            elif isinstance(a, T) and a is NONE:
                c = self.is_none(b, st)
            else:
                ta, tb = self.R(a, st), self.R(b, st)
                if ta is tb:
                    c = TRUE
                elif ta.op in ("const", "enum", "class", "ext") and tb.op == ta.op:
                    c = FALSE
                elif (ta in (TRUE, FALSE) and is_bool(tb)) or (tb in (TRUE, FALSE) and is_bool(ta)):
                    c = eq(ta, tb)
                elif (ta.op in ("const", "enum", "ext")) or (tb.op in ("const", "enum", "ext")):
                    c = eq(ta, tb)
                else:
                    c = is_term(ta, tb)
            return not_(c) if op == "IsNot" else c
        if op in ("In", "NotIn"):
            c = self.contains_(a, b, st)
            return not_(c) if op == "NotIn" else c
        for x in (a, b):
            if isinstance(x, (FuncV, PyF, BoundV)) and op in ("Eq", "NotEq"):
                return FALSE if op == "Eq" else TRUE
        ta, tb = self.R(a, st), self.R(b, st)
        if op in ("Eq", "NotEq"):
            if ta.op == "ite" and tb.op in ("const", "num", "enum"):
                c = ite(ta.args[0], self.compare("Eq", ta.args[1], tb, st), self.compare("Eq", ta.args[2], tb, st))
            elif tb.op == "ite" and ta.op in ("const", "num", "enum"):
                c = ite(tb.args[0], self.compare("Eq", tb.args[1], ta, st), self.compare("Eq", tb.args[2], ta, st))
            else:
                c = eq(ta, tb)
            return not_(c) if op == "NotEq" else c
        if op == "Gt":
            return gt(ta, tb)
        if op == "Lt":
            return gt(tb, ta)
        if op == "GtE":
            return ge(ta, tb)
        if op == "LtE":
            return ge(tb, ta)
        raise Undecided(op)

    def contains_(self, a, b, st):
        if isinstance(b, RefV) and b.kind == "dict":
            d = st.get(("D", b.id))
            if isinstance(d, dict):
                ta = self.R(a, st)
                if ta.dig in d:
                    v = d[ta.dig][1]
                    if isinstance(v, IteV) and (v.a is MISSING or v.b is MISSING):
                        return not_(v.c) if v.a is MISSING else v.c
                    if isinstance(v, T) and v.op == "ite" and v.args[1].op == "missing":
                        return not_(v.args[0])
                    if isinstance(v, T) and v.op == "ite" and v.args[2].op == "missing":
                        return v.args[0]
                    return TRUE
                if ta.op in ("const", "num", "enum") and all(self.R(k, st).op in ("const", "num", "enum") for k, _ in d.values()):
                    return FALSE
                r = FALSE
                for k, v in d.values():
                    r = or_(r, eq(ta, self.R(k, st)))
                return r
            return mk("in", self.R(a, st), d)
        items = self.known_items(b, st)
        if items is not None:
            ta = self.R(a, st)
            r = FALSE
            for x in items:
                tx = self.R(x, st)
                r = or_(r, self.compare("Eq", ta, tx, st))
            return r
        if isinstance(b, RefV) and b.kind == "obj":
            m = b.cls.find("__contains__")
            if m is not None:
                return self.truth(self.call_func(m, [a], {}, st, self_val=b), st)
        tb = self.R(b, st)
        if tb.op == "ite":
            return ite(tb.args[0], self.contains_(a, tb.args[1], st), self.contains_(a, tb.args[2], st))
        ta = self.R(a, st)
        if tb.op == "const" and ta.op == "const" and isinstance(tb.args[0], str) and isinstance(ta.args[0], str):
            return TRUE if ta.args[0] in tb.args[0] else FALSE
        if tb.op == "dict":
            r = FALSE
            for k, _ in tb.args[0]:
                r = or_(r, eq(ta, k))
            return r
        return mk("in", ta, tb)

    def ev_Slice(self, n, fid, st):
        f = lambda x: NONE if x is None else self.R(self.ev(x, fid, st), st)
        return slice_(f(n.lower), f(n.upper), f(n.step))

    def ev_Subscript(self, n, fid, st):
        v = self.ev(n.value, fid, st)
        i = self.ev(n.slice, fid, st)
        self.loc(n, fid)
        return self.subscript(v, i, st)

    def subscript(self, v, i, st):
        v, i = self.resolve(st, v), self.resolve(st, i)
        if isinstance(v, TupV):
            if isinstance(i, T):
                k = intval(i)
                if k is not None and -len(v.items) <= k < len(v.items):
                    return v.items[k]
                if i.op == "slice" and all(a is NONE or intval(a) is not None for a in i.args):
                    return TupV(v.items[slice(*[None if a is NONE else intval(a) for a in i.args])])
                if i.op == "ite":
                    return self.branch(i.args[0], st, lambda s: self.subscript(v, i.args[1], s), lambda s: self.subscript(v, i.args[2], s))
                if i.op in ("len", "poly") and False:
                    pass
        if isinstance(v, RefV):
            if v.kind in ("list", "deque"):
                segs = st.get(("L", v.id))
                if isinstance(segs, tuple) and isinstance(i, T):
                    k = intval(i)
                    if k is not None:
                        if k >= 0 and k < len(segs) and all(s[0] == "i" for s in segs[:k + 1]):
                            return segs[k][1]
                        if k < 0 and -k <= len(segs) and all(s[0] == "i" for s in segs[k:]):
                            return segs[k][1]
                    if i.op == "slice" and all(s[0] == "i" for s in segs) and all(a is NONE or intval(a) is not None for a in i.args):
                        return self.new_list(st, segs[slice(*[None if a is NONE else intval(a) for a in i.args])])
                return idx(self.R(v, st), self.R(i, st))
            if v.kind == "dict":
                d = st.get(("D", v.id))
                ti = self.R(i, st)
                if isinstance(d, dict):
                    if ti.dig in d:
                        return self.resolve(st, d[ti.dig][1])
                    if ti.op == "ite":
                        return self.branch(ti.args[0], st, lambda s: self.subscript(v, ti.args[1], s), lambda s: self.subscript(v, ti.args[2], s))
                    cands = [(k, x) for k, x in d.values()]
                    self.note_key(ti, [self.R(k, st) for k, _ in cands], st)
                    if cands and all(not isinstance(x, T) for _, x in cands) and all(self.R(k, st).op in ("const", "num", "enum") for k, _ in cands):
                        return self.dispatch(ti, cands, st)
                    if 0 < len(cands) <= 12 and all(isinstance(x, T) for _, x in cands) and \
                            all(self.R(k, st).op in ("const", "num", "enum") for k, _ in cands):
                        return self.dispatch(ti, cands, st)
                    return idx(self.R(v, st), ti)
                return idx(d, ti)
            if v.kind == "obj":
                m = v.cls.find("__getitem__")
                if m is not None:
                    return self.call_func(m, [i], {}, st, self_val=v)
                if v.cls.is_namedtuple:
                    names = [f[0] for f in v.cls.all_fields()]
                    k = intval(self.R(i, st))
                    if k is not None:
                        return st.get(("O", v.id, names[k]))
        if isinstance(v, IteV):
            return self.branch(v.c, st, lambda s: self.subscript(v.a, i, s), lambda s: self.subscript(v.b, i, s))
        if isinstance(v, SeqV):
            if v.items is not None:
                return self.subscript(TupV(v.items), i, st)
            return v.elem(self.R(i, st), st)
        if isinstance(v, ClassV):
            if v.is_enum and isinstance(i, T) and i.op == "const":
                return v.attrs.get(i.args[0], unk("enum"))
            if v.is_enum and isinstance(i, T):
                members = [(const(k), x) for k, x in v.attrs.items() if isinstance(x, T) and x.op == "enum"]
                self.note_key(i, [k for k, _ in members], st)
                return idx(mk("dict", tuple(members)), i)
            return v
        t = self.R(v, st)
        if t.op == "dict":
            self.note_key(self.R(i, st), [k for k, _ in t.args[0]], st)
        cls = self.typ(t)
        if isinstance(cls, ClassV):
            m = cls.find("__getitem__")
            if isinstance(m, FuncV):
                return self.call_func(m, [i], {}, st, self_val=t)
            if cls.is_namedtuple:
                k = intval(self.R(i, st))
                if k is not None:
                    return self.get_attr(t, cls.all_fields()[k][0], st)
        r = idx(t, self.R(i, st))
        if isinstance(cls, tuple) and cls[0] == "list":
            self.types.setdefault(r.dig, cls[1])
        return r

    keyerr = None

    def note_key(self, k, keys, st):
        """Look-up in a literal table inside a guarded region: it fails when no key matches."""
        if self.keyerr is None:
            return
        c = TRUE
        for x in keys:
            if x.op not in ("const", "num", "enum"):
                self.keyerr.append(None)
                return
            c = and_(c, not_(eq(k, x)))
        self.keyerr.append(c)

    def dispatch(self, ti, cands, st):
        v = mk("bottom")
        for k, x in reversed(cands):
            c = eq(ti, self.R(k, st))
            v = self.merge_val(c, x, v, st, st, st) if not (isinstance(v, T) and v.op == "bottom") else x
        return v

    # comprehensions ------------------------------------------------
    def ev_ListComp(self, n, fid, st):
        return self.new_list(st, self.comp(n.generators, lambda f, s: (("i", self.ev(n.elt, f, s)),), fid, st))

    def ev_GeneratorExp(self, n, fid, st):
        return self.ev_ListComp(n, fid, st)

    def ev_SetComp(self, n, fid, st):
        return self.new_list(st, self.comp(n.generators, lambda f, s: (("i", self.ev(n.elt, f, s)),), fid, st), "set")

    def ev_DictComp(self, n, fid, st):
        segs = self.comp(n.generators, lambda f, s: (("i", TupV([self.ev(n.key, f, s), self.ev(n.value, f, s)])),), fid, st)
        if all(k == "i" for k, _ in segs):
            return self.new_dict(st, [v.items for _, v in segs])
        i = self.nid()
        st.set(("D", i), mk("dictof", self.segs_term(segs, st)))
        return RefV(i, "dict")

    def comp(self, gens, body, fid, st):
        g = gens[0]
        it = self.ev(g.iter, fid, st)
        cf = self.nid()
        names = set()
        for t in ast.walk(g.target):
            if isinstance(t, ast.Name):
                names.add(t.id)
        self.frames[cf] = Frame(cf, fid, self.frames[fid].mod, names)

        def inner(s):
            if len(gens) > 1:
                return self.comp(gens[1:], body, cf, s)
            return body(cf, s)

        def guarded(conds, s):
            if not conds:
                return inner(s)
            c = self.truth(self.ev(conds[0], cf, s), s)
            if c is TRUE:
                return guarded(conds[1:], s)
            if c is FALSE:
                return ()
            s2 = s.fork()
            self.assume(s2, c, True)
            s2.set(EFF, ())
            segs = guarded(conds[1:], s2)
            if s2.get(EFF):
                had = s.get(EFF)
                s.set(EFF, (() if had is MISSING else had) + (("s", ite(c, self.segs_term(s2.get(EFF), s2), mk("list"))),))
            return (("s", ite(c, self.segs_term(segs, s2), mk("list"))),)
        items = self.known_items(it, st)
        if items is not None and len(items) <= 128:
            out = ()
            for x in items:
                self.assign(g.target, x, cf, st)
                out += tuple(guarded(g.ifs, st))
            return out
        s = self.to_seq(it, st)
        i = self.loop_index()
        base = self.n
        child = st.fork()
        anc = child.top.parent
        child.set(EFF, ())
        self.assign(g.target, s.elem(i, child), cf, child)
        segs = tuple(guarded(g.ifs, child))
        for k in changed(child.top, anc):
            if k != EFF and k[0] != cf and k[0] not in ("TRY", "OF") and self.is_old_key(k, base):
                raise Undecided("comprehension that changes %s" % (k,))
        done = self.close_segs(s.n, i, segs, child)
        if child.get(EFF):
            e = self.segs_term(child.get(EFF), child)
            if not (e.op == "list" and not e.args):
                self.effect(st, self.close_value(("flat",), e, {}, s.n, i, FALSE, None))
        return (("s", done),)

    def repeated(self, x, n):
        if x.op in ("list", "tuple") and len(x.args) == 1:
            return self.mk_seq(n, self.loop_index(), x.args[0])
        return mk("repeat", x, n)

    def close_segs(self, n, i, segs, st):
        if len(segs) == 1 and segs[0][0] == "i":
            e = self.R(segs[0][1], st)
            return self.mk_seq(n, i, e)
        t = self.segs_term(segs, st)
        return tm.rebuild("flat", (self.norm_count(n, i, [t]), lam([i], t)))

    # iteration -----------------------------------------------------
    def known_items(self, v, st):
        v = self.resolve(st, v)
        if isinstance(v, TupV):
            return list(v.items)
        if isinstance(v, SeqV):
            return list(v.items) if v.items is not None else None
        if isinstance(v, RefV):
            if v.kind in ("list", "set", "deque"):
                s = st.get(("L", v.id))
                if isinstance(s, T):
                    return self.known_items(s, st)
                if all(k == "i" for k, _ in s):
                    return [x for _, x in s]
                return None
            if v.kind == "dict":
                d = st.get(("D", v.id))
                if isinstance(d, dict):
                    return [k for k, _ in d.values()]
                return None
            if v.kind == "obj" and v.cls.is_namedtuple:
                return [st.get(("O", v.id, f[0])) for f in v.cls.all_fields()]
            return None
        if isinstance(v, T):
            if v.op in ("tuple", "list"):
                return list(v.args)
            if v.op == "const" and isinstance(v.args[0], str):
                return [const(c) for c in v.args[0]]
            if v.op == "dict":
                return [k for k, _ in v.args[0]]
            cls = self.typ(v)
            if isinstance(cls, ClassV) and cls.is_namedtuple:
                return [self.get_attr(v, f[0], st) for f in cls.all_fields()]
        if isinstance(v, ClassV) and v.is_enum:
            return [x for x in v.attrs.values() if isinstance(x, T) and x.op == "enum"]
        return None

    def to_seq(self, v, st):
        v = self.resolve(st, v)
        items = self.known_items(v, st)
        if items is not None:
            return SeqV(items, num(len(items)), lambda i, s: self.subscript(TupV(items), i, s))
        if isinstance(v, SeqV):
            return v
        if isinstance(v, RefV) and v.kind == "obj":
            m = v.cls.find("__iter__")
            if m is not None:
                return self.to_seq(self.call_func(m, [], {}, st, self_val=v), st)
        t = self.R(v, st)
        cls = self.typ(t)
        if t.op == "seq":
            return SeqV(None, len_(t), lambda i, s: tm.apply_lam(t.args[1], [i]))
        if t.op == "ite":
            pass

        def elem(i, s):
            r = idx(t, i)
            if isinstance(cls, tuple) and cls[0] == "list":
                self.types.setdefault(r.dig, cls[1])
            return r
        return SeqV(None, len_(t), elem)

    def unpack(self, v, n, st, star=None):
        v = self.resolve(st, v)
        items = self.known_items(v, st)
        if items is not None and star is None:
            if len(items) != n:
                raise Undecided("unpack arity")
            return items
        if items is not None:
            k = n - 1
            tail = n - 1 - star
            if len(items) < k:
                raise Undecided("unpack arity")
            mid = items[star: len(items) - tail]
            return items[:star] + [self.list_of(st, mid)] + (items[len(items) - tail:] if tail else [])
        if isinstance(v, IteV):
            a = self.unpack(v.a, n, st, star)
            b = self.unpack(v.b, n, st, star)
            return [self.merge_val(v.c, x, y, st, st, st) for x, y in zip(a, b)]
        t = self.R(v, st)
        if t.op == "ite" and star is None:
            a = self.unpack(t.args[1], n, st)
            b = self.unpack(t.args[2], n, st)
            return [self.merge_val(t.args[0], x, y, st, st, st) for x, y in zip(a, b)]
        if star is None:
            return [self.subscript(v if isinstance(v, SeqV) else t, num(j), st) for j in range(n)]
        tail = n - 1 - star
        out = [idx(t, num(j)) for j in range(star)]
        out.append(idx(t, slice_(num(star), NONE if tail == 0 else num(-tail), NONE)))
        out += [idx(t, num(j - tail)) for j in range(tail)]
        return out

    # ------------------------------------------------------------ call expr
    def ev_Call(self, n, fid, st):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            return self.super_obj(fid, st)
        f = self.ev(n.func, fid, st)
        args, kwargs, split = [], {}, []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fid, st)
                items = self.known_items(v, st)
                if items is not None:
                    args.extend(items)
                else:
                    v = self.resolve(st, v)
                    c = choice_of(v)
                    if c is not None and all(self.known_items(x, st) is not None or choice_of(self.resolve(st, x)) for x in c[1:]):
                        split.append((len(args), c))
                        args.append(v)
                    else:
                        args.append(mk("star", self.R(v, st)))
            else:
                args.append(self.ev(a, fid, st))
        for k in n.keywords:
            v = self.ev(k.value, fid, st)
            if k.arg is None:
                v = self.resolve(st, v)
                if isinstance(v, RefV) and v.kind == "dict" and isinstance(st.get(("D", v.id)), dict):
                    for kk, x in st.get(("D", v.id)).values():
                        kt = self.R(kk, st)
                        kwargs[kt.args[0] if kt.op == "const" else "?"] = self.resolve(st, x)
                elif isinstance(v, T) and v.op == "dict":
                    for kk, x in v.args[0]:
                        kwargs[kk.args[0]] = x
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        self.loc(n, fid)
        self.last_wb = ()
        if split:
            return self.call_split(f, args, kwargs, split, st, n)
        r = self.call(f, args, kwargs, st, n)
        if self.last_wb:
            nodes = []
            if not any(isinstance(a, ast.Starred) for a in n.args):
                nodes += list(zip(n.args, args))
            nodes += [(k.value, kwargs[k.arg]) for k in n.keywords if k.arg in kwargs]
            self.write_back(nodes, fid, st)
        return r

    def call_split(self, f, args, kwargs, split, st, n):
        """A call with starred arguments of which one is a choice between known sequences."""
        if not split:
            return self.call(f, args, kwargs, st, n)
        (j, (c, x, y)), rest = split[-1], split[:-1]

        def go(v):
            def run(s):
                items = self.known_items(v, s)
                if items is not None:
                    return self.call_split(f, args[:j] + items + args[j + 1:], kwargs, rest, s, n)
                w = self.resolve(s, v)
                d = choice_of(w)
                if d is None:
                    return self.call_split(f, args[:j] + [mk("star", self.R(w, s))] + args[j + 1:], kwargs, rest, s, n)
                return self.call_split(f, args, kwargs, rest + [(j, d)], s, n)
            return run
        return self.branch(c, st, go(x), go(y))

    def ev_Yield(self, n, fid, st):
        t = NONE if n.value is None else self.R(self.ev(n.value, fid, st), st)
        self.effect(st, mk("yield", t))
        if n.value is not None:
            self.yielded.append(self.ev(n.value, fid, st))
        return mk("sent", t)

    def super_obj(self, fid, st):
        f = self.frames[fid]
        while f is not None and (f.cls is None or f.self is None):
            f = self.frames.get(f.parent)
        if f is None:
            raise Undecided("super")
        me, cls = f.self, f.cls

        class _S:
            pass
        I = self

        def getter(name):
            for c in cls.mro()[1:]:
                if name in c.attrs:
                    return I.bind_member(c.attrs[name], me, cls, st)
            return PyF(lambda I_, s, a, k: NONE)
        return SuperV(getter)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, fid, st):
        """-> (falls through?, [Exit])  -- guards relative to block entry, in order"""
        exits = []
        for k, s in enumerate(stmts):
            self.steps += 1
            self.stmts += 1
            if self.steps > self.MAXSTEPS:
                raise Undecided("step budget")
            self.loc(s, fid)
            m = getattr(self, "st_" + type(s).__name__, None)
            if m is None:
                raise Undecided("statement " + type(s).__name__)
            r = m(s, fid, st)
            if r is None:
                continue
            falls, ex = r
            exits.extend(ex)
            if not falls:
                return False, exits
        return True, exits

    def st_Pass(self, s, fid, st):
        return None

    def st_Expr(self, s, fid, st):
        if isinstance(s.value, ast.Constant):
            return None
        v = self.ev(s.value, fid, st)
        self.discard(v, st)
        if isinstance(v, T) and v.op == "bottom":
            return False, []
        return None

    def discard(self, v, st):
        if isinstance(v, T) and v.op == "call" and not (isinstance(v.args[0], str) and v.args[0].startswith("pure:")):
            self.effect(st, mk("do", v))
        elif isinstance(v, T) and v.op == "ite" and any(x.op == "call" for x in v.args[1:]):
            self.effect(st, mk("do", v))
        elif isinstance(v, T) and v.op in ("callback",):
            self.effect(st, mk("do", v))

    def st_Assign(self, s, fid, st):
        v = self.ev(s.value, fid, st)
        for t in s.targets:
            self.assign(t, v, fid, st)
        if isinstance(v, T) and v.op == "bottom":
            return False, []
        return None

    def st_AnnAssign(self, s, fid, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fid, st), fid, st)
        return None

    def st_AugAssign(self, s, fid, st):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), fid, st)
            v = self.ev(s.value, fid, st)
            if op == "Add" and isinstance(cur, RefV) and cur.kind == "list":
                st.set(("L", cur.id), tuple(self.as_segs(cur, st)) + tuple(self.as_segs(v, st)))
                return None
            self.loc(s, fid)
            self.assign(t, self.binop(op, cur, v, st), fid, st)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, fid, st)
            cur = self.get_attr(b, t.attr, st)
            v = self.ev(s.value, fid, st)
            if op == "Add" and isinstance(cur, RefV) and cur.kind == "list":
                st.set(("L", cur.id), tuple(self.as_segs(cur, st)) + tuple(self.as_segs(v, st)))
                return None
            self.set_attr(b, t.attr, self.binop(op, cur, v, st), st)
        else:
            b = self.ev(t.value, fid, st)
            i = self.ev(t.slice, fid, st)
            cur = self.subscript(b, i, st)
            v = self.ev(s.value, fid, st)
            self.loc(s, fid)
            self.store_sub(t.value, b, i, self.binop(op, cur, v, st), fid, st)
        return None

    def assign(self, t, v, fid, st):
        if isinstance(t, ast.Name):
            if self.is_global_decl(t.id, fid) and self.frames[fid].locals is not None:
                f = self.frames[fid]
                self.effect(st, mk("setglobal", f.mod.name + "." + t.id, self.R(v, st)))
                return
            self.assign_name(t.id, v, fid, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = None
            for k, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    star = k
            vals = self.unpack(v, len(t.elts), st, star)
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, fid, st)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, fid, st)
            self.set_attr(b, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, fid, st)
            i = self.ev(t.slice, fid, st)
            self.store_sub(t.value, b, i, v, fid, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fid, st)
        else:
            raise Undecided("assign target")

    def store_sub(self, bnode, b, i, v, fid, st):
        b = self.resolve(st, b)
        if isinstance(b, RefV):
            if b.kind == "dict":
                d = st.get(("D", b.id))
                ti = self.R(i, st)
                if isinstance(d, dict):
                    const_keys = ti.op in ("const", "num", "enum", "ext", "class") or not d or ti.dig in d
                    if const_keys and not (ti.fv):
                        d = dict(d)
                        d[ti.dig] = (i, v)
                        st.set(("D", b.id), d)
                        return
                    d = mk("dict", tuple((self.R(x, st), self.R(y, st)) for x, y in d.values()))
                st.set(("D", b.id), mk("set", d, ti, self.R(v, st)))
                return
            if b.kind in ("list", "deque"):
                segs = st.get(("L", b.id))
                k = intval(self.R(i, st))
                if isinstance(segs, tuple) and k is not None and all(x[0] == "i" for x in segs) and -len(segs) <= k < len(segs):
                    l = list(segs)
                    l[k] = ("i", v)
                    st.set(("L", b.id), tuple(l))
                    return
                st.set(("L", b.id), (("s", mk("set", self.R(b, st), self.R(i, st), self.R(v, st))),))
                return
            if b.kind == "obj":
                m = b.cls.find("__setitem__")
                if m is not None:
                    self.call_func(m, [i, v], {}, st, self_val=b)
                    return
        if isinstance(b, IteV):
            raise Undecided("store to merged reference")
        tb = self.R(b, st)
        if tb.op == "ext" or tb.op == "global" or (tb.op == "attr" and tb.args[0].op in ("ext", "global")):
            self.effect(st, mk("setitem", tb, self.R(i, st), self.R(v, st)))
            return
        ti = self.R(i, st)
        new = seti(tb, ti, self.R(v, st))
        if isinstance(bnode, ast.Name) and ti.op == "const" and isinstance(ti.args[0], str):
            # a keyed store through an alias of an object reached from outside
            root = tb
            while root.op == "set":
                root = root.args[0]
            if root.op in ("idx", "attr") and self.outer(root):
                self.effect(st, mk("setitem", root, ti, self.R(v, st)))
        if isinstance(bnode, ast.Name):
            self.assign(bnode, new, fid, st)
        elif isinstance(bnode, ast.Attribute):
            self.set_attr(self.ev(bnode.value, fid, st), bnode.attr, new, st)
        elif isinstance(bnode, ast.Subscript):
            bb = self.ev(bnode.value, fid, st)
            ii = self.ev(bnode.slice, fid, st)
            self.store_sub(bnode.value, bb, ii, new, fid, st)
        else:
            self.effect(st, mk("setitem", tb, self.R(i, st), self.R(v, st)))

    def outer(self, t):
        while t.op in ("idx", "attr"):
            t = t.args[0]
        return t.op == "sym"

    def st_Return(self, s, fid, st):
        v = NONE if s.value is None else self.ev(s.value, fid, st)
        if isinstance(v, T) and v.op == "bottom":
            return False, []
        return False, [Exit(TRUE, "return", v, st.fork_view())]

    def st_Raise(self, s, fid, st):
        nm = "reraise"
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            nm = e.id if isinstance(e, ast.Name) else getattr(e, "attr", "Exception")
        return False, [Exit(TRUE, "raise", const(nm), st.fork_view())]

    def st_Break(self, s, fid, st):
        return False, [Exit(TRUE, "break", NONE, st.fork_view())]

    def st_Continue(self, s, fid, st):
        return False, [Exit(TRUE, "continue", NONE, st.fork_view())]

    def st_Assert(self, s, fid, st):
        c = self.truth(self.ev(s.test, fid, st), st)
        if c is FALSE:
            return False, [Exit(TRUE, "raise", const("AssertionError"), st.fork_view())]
        if c is not TRUE:
            self.effect(st, mk("raise_if", not_(c), const("AssertionError")))
            self.assume(st, c, True)
        return None

    def st_If(self, s, fid, st):
        c = self.truth(self.ev(s.test, fid, st), st)
        if c is TRUE:
            return self.exec_block(s.body, fid, st)
        if c is FALSE:
            return self.exec_block(s.orelse, fid, st)
        sa, sb = st.fork(), st.fork()
        self.assume(sa, c, True)
        self.assume(sb, c, False)
        fa, ea = self.exec_block(s.body, fid, sa)
        fb, eb = self.exec_block(s.orelse, fid, sb)
        return self.join(c, fa, ea, sa, fb, eb, sb, st)

    def join(self, c, fa, ea, sa, fb, eb, sb, st):
        exits = []
        raises = []
        for cc, es in ((c, ea), (not_(c), eb)):
            prev = TRUE
            for e in es:
                g = and_(cc, e.g)
                if e.kind == "raise" and (fa or fb):
                    raises.append((and_(and_(cc, prev), e.g), e.val))
                else:
                    exits.append(Exit(g, e.kind, e.val, e.st))
                prev = and_(prev, not_(e.g))
        if fa and fb:
            self.adopt(st, self.merge(c, sa, sb))
            # facts common to both
            st.facts = {k: v for k, v in sa.facts.items() if sb.facts.get(k) == v}
            # partial exits: conditions known false afterwards
            for e in exits:
                self.assume(st, e.g, False)
        elif fa:
            self.adopt(st, sa)
            st.facts = sa.facts
            self.assume(st, c, True)
        elif fb:
            self.adopt(st, sb)
            st.facts = sb.facts
            self.assume(st, c, False)
        st.top = Layer(st.top) if st.top.parent is not None or st.top is not self.root else Layer(st.top)
        for g, x in raises:
            if g is not FALSE:
                self.effect(st, mk("raise_if", g, x))
                self.assume(st, g, False)
        return (fa or fb), exits

    def st_FunctionDef(self, s, fid, st):
        f = self.make_func(s, fid, st)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, fid, st)
            f = self.apply_decorator(dv, f, st)
        self.assign_name(s.name, f, fid, st)
        return None

    def apply_decorator(self, dv, f, st):
        if isinstance(dv, T) and dv.op == "ext" and dv.args[0].startswith("contextlib."):
            f2 = FuncV(f.node, f.mod, f.fid, f.cls, f.defaults, f.kwdefaults, f.qual, "generator")
            return f2
        r = self.call(dv, [f], {}, st)
        if isinstance(r, T) and r.op == "call":
            return f
        if isinstance(r, FuncV) and r is not f and False:
            r.qual = f.qual
        return r

    def st_ClassDef(self, s, fid, st):
        c = self.make_class(s, fid, st)
        self.assign_name(s.name, c, fid, st)
        return None

    def st_Import(self, s, fid, st):
        for al in s.names:
            if al.asname:
                v = ModV(al.name) if al.name in self.prog.modules else mk("ext", canon(al.name))
                self.assign_name(al.asname, v, fid, st)
            else:
                top = al.name.split(".")[0]
                v = ModV(top) if top in self.prog.modules else mk("ext", canon(top))
                self.assign_name(top, v, fid, st)
        return None

    def st_ImportFrom(self, s, fid, st):
        mod = self.frames[fid].mod
        target = self.prog.resolve_relative(mod, s.level, s.module or "")
        if target == "__future__":
            return None
        for al in s.names:
            if target in self.prog.modules:
                if al.name == "*":
                    m = self.module(target)
                    for k, v in m.env.items():
                        if not k.startswith("_"):
                            self.assign_name(k, v, fid, st)
                    continue
                v = self.mod_attr(target, al.name)
            else:
                v = mk("ext", canon(target + "." + al.name))
            self.assign_name(al.asname or al.name, v, fid, st)
        return None

    def st_Global(self, s, fid, st):
        return None

    st_Nonlocal = st_Global

    def st_Delete(self, s, fid, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.ev(t.value, fid, st)
                i = self.R(self.ev(t.slice, fid, st), st)
                if isinstance(b, RefV) and b.kind == "dict":
                    d = st.get(("D", b.id))
                    if isinstance(d, dict) and i.dig in d:
                        d = dict(d)
                        del d[i.dig]
                        st.set(("D", b.id), d)
                        continue
                    st.set(("D", b.id), mk("delitem", self.R(b, st), i))
                    continue
                self.effect(st, mk("delitem", self.R(b, st), i))
        return None

    def st_With(self, s, fid, st):
        marks = []
        for it in s.items:
            v = self.ev(it.context_expr, fid, st)
            try:
                t = self.R(v, st)
            except Undecided:
                t = unk("ctx")
            if it.optional_vars is not None:
                x = v
                if isinstance(v, RefV) and v.kind == "obj":
                    m = v.cls.find("__enter__")
                    if m is not None:
                        x = self.call_func(m, [], {}, st, self_val=v)
                self.assign(it.optional_vars, x, fid, st)
            marks.append(t)
            if not self.api.trivial_context(t):
                self.effect(st, mk("enter", t))
        r = self.exec_block(s.body, fid, st)
        if r[0]:
            for t in reversed(marks):
                if not self.api.trivial_context(t):
                    self.effect(st, mk("exit", t))
        return r

    def st_Try(self, s, fid, st):
        imp = all(isinstance(x, (ast.Import, ast.ImportFrom, ast.Pass)) or
                  (isinstance(x, (ast.Assign, ast.Return)) and isinstance(x.value, ast.Constant)) for x in s.body)
        hn = tuple(sorted(self.handler_name(h) for h in s.handlers))
        if hn in (("ImportError",), ("ModuleNotFoundError",)):
            imp = any(isinstance(x, (ast.Import, ast.ImportFrom)) for x in s.body)
        if not s.handlers:
            if s.finalbody:
                ss = st.fork()
                ss.set(EFF, ())
                self.exec_block(s.finalbody, fid, ss)
                e = self.segs_term(ss.get(EFF), ss)
                if not (e.op == "list" and not e.args):
                    self.effect(st, mk("onexit", e))
            falls, ex = self.exec_block(s.body, fid, st)
            if s.finalbody:
                if falls:
                    f2, e2 = self.exec_block(s.finalbody, fid, st)
                    ex += e2
                    falls = f2
                else:
                    ss = st.fork()
                    self.exec_block(s.finalbody, fid, ss)
            return falls, ex
        if imp:
            mods = []
            for x in s.body:
                if isinstance(x, ast.Import):
                    mods += [a.name for a in x.names]
                elif isinstance(x, ast.ImportFrom):
                    mods += ["." * x.level + (x.module or "") + "." + a.name for a in x.names]
            c = mk("raised", "import", tuple(sorted(set(mods))))
        else:
            # the k-th guarded region with these handlers on the path
            k = st.get(("TRY", hn))
            k = ZERO if k is MISSING else k
            st.set(("TRY", hn), add(k, ONE))
            c = mk("raised", hn, k)
            if hn == ("KeyError",) and len(s.body) == 1:
                old, self.keyerr = self.keyerr, []
                nt = len(self.types)
                try:
                    ss = st.fork()
                    self.exec_block(s.body, fid, ss)
                    if len(self.keyerr) == 1 and self.keyerr[0] is not None:
                        c = self.keyerr[0]
                finally:
                    self.keyerr = old
        c = self.simp(st, c)
        sa, sb = st.fork(), st.fork()
        self.assume(sb, c, False)
        e0 = sb.get(EFF)
        e0 = () if e0 is MISSING else e0
        fb, eb = self.exec_block(s.body, fid, sb)
        # explicit raises inside the guarded region reach the handlers
        h, keep = FALSE, []
        for seg in (sb.get(EFF) or ())[len(e0):] if sb.get(EFF) is not MISSING else ():
            if seg[0] == "i" and seg[1].op == "raise_if" and self.handled(hn, seg[1].args[1]):
                h = or_(h, seg[1].args[0])
            else:
                keep.append(seg)
        if h is not FALSE:
            sb.set(EFF, e0 + tuple(keep))
        rest = []
        for e in eb:
            if e.kind == "raise" and self.handled(hn, e.val):
                h = or_(h, e.g)
            else:
                rest.append(e)
        eb = rest
        c = or_(c, h)
        self.assume(sa, c, True)
        if fb and s.orelse:
            fb, e2 = self.exec_block(s.orelse, fid, sb)
            eb = eb + e2
        # handlers: first handler is taken as the representative, others under further guards
        fa, ea = self.exec_handlers(s.handlers, fid, sa)
        # raises explicitly written inside the body of a handled try are handled
        r = self.join(c, fa, ea, sa, fb, eb, sb, st)
        if s.finalbody:
            if r[0]:
                f2, e2 = self.exec_block(s.finalbody, fid, st)
                return f2, r[1] + e2
            ss = st.fork()
            self.exec_block(s.finalbody, fid, ss)
        return r

    def handled(self, hn, exc):
        """An explicitly raised exception is caught by one of the handlers."""
        if exc is None or not isinstance(exc, T):
            return False
        names = set()
        for x in subterms(exc).values():
            for a in x.args:
                if isinstance(a, str):
                    names.add(a.split(".")[-1])
        for h in hn:
            for n in h.split("|"):
                if n in ("Exception", "BaseException") or n in names:
                    return True
        return False

    def handler_name(self, h):
        if h.type is None:
            return "BaseException"
        if isinstance(h.type, ast.Tuple):
            return "|".join(sorted(getattr(e, "id", getattr(e, "attr", "?")) for e in h.type.elts))
        return getattr(h.type, "id", getattr(h.type, "attr", "?"))

    def exec_handlers(self, hs, fid, st):
        h = hs[0]
        if len(hs) == 1:
            if h.name:
                self.assign_name(h.name, mk("exc", self.handler_name(h)), fid, st)
            return self.exec_block(h.body, fid, st)
        c = mk("isinst", mk("exc", "current"), const(self.handler_name(h)))
        sa, sb = st.fork(), st.fork()
        if h.name:
            self.assign_name(h.name, mk("exc", self.handler_name(h)), fid, sa)
        fa, ea = self.exec_block(h.body, fid, sa)
        fb, eb = self.exec_handlers(hs[1:], fid, sb)
        return self.join(c, fa, ea, sa, fb, eb, sb, st)

    # ------------------------------------------------------------ loops
    def st_For(self, s, fid, st):
        it = self.ev(s.iter, fid, st)
        items = self.known_items(it, st)
        if items is not None and len(items) <= 130:
            return self.unroll(s, items, fid, st)
        c, rest = self.nonempty(it, st)
        if c is not TRUE and rest is not None:
            sa, sb = st.fork(), st.fork()
            self.assume(sa, c, True)
            self.assume(sb, c, False)
            fa, ea = self.for_over(s, rest, fid, sa)
            fb, eb = self.exec_block(s.orelse, fid, sb)
            return self.join(c, fa, ea, sa, fb, eb, sb, st)
        return self.for_over(s, it, fid, st)

    def nonempty(self, v, st):
        """(condition under which v is not a literally empty sequence, v then)."""
        v = self.resolve(st, v)
        items = self.known_items(v, st)
        if items is not None:
            return (TRUE, v) if items else (FALSE, None)
        ch = choice_of(v)
        if ch is None:
            return TRUE, v
        c, a, b = ch
        (ca, a), (cb, b) = self.nonempty(a, st), self.nonempty(b, st)
        if ca is FALSE and cb is FALSE:
            return FALSE, None
        if ca is TRUE and cb is TRUE:
            return TRUE, v
        if ca is FALSE:
            return and_(not_(c), cb), b
        if cb is FALSE:
            return and_(c, ca), a
        return ite(c, ca, cb), IteV(c, a, b)

    def for_over(self, s, it, fid, st):
        items = self.known_items(it, st)
        if items is not None and len(items) <= 130:
            return self.unroll(s, items, fid, st)
        f = self.filtered(it, st)
        if f is not None:
            return self.sym_loop(s, fid, st, seq=f)
        seq = self.to_seq(it, st)
        return self.sym_loop(s, fid, st, seq=seq)

    def filtered(self, it, st):
        """[x for .. if c] as a sequence of x with a guard c."""
        if isinstance(it, (SeqV, IteV, TupV)):
            return None
        try:
            t = self.R(it, st)
        except Undecided:
            return None
        if t.op != "flat" or t.args[1].args[0] != 1:
            return None
        b = t.args[1].args[2]
        if b.op != "ite":
            return None
        pos = b.args[1].op == "list" and len(b.args[1].args) == 1 and b.args[2] is EMPTY
        negt = b.args[2].op == "list" and len(b.args[2].args) == 1 and b.args[1] is EMPTY
        if not (pos or negt):
            return None
        lm = t.args[1]
        n = t.args[0]
        if n is ALL:
            bs = bases(lm)
            if len(bs) != 1:
                return None
            n = len_(bs[0])

        def get(i):
            x = tm.apply_lam(lm, [i])
            if x.op != "ite":
                raise Undecided("filtered iteration")
            return x
        s = SeqV(None, n, lambda i, st2: get(i).args[1 if pos else 2].args[0])
        s.guard = lambda i: get(i).args[0] if pos else not_(get(i).args[0])
        return s

    def unroll(self, s, items, fid, st):
        exits = []
        broke = []
        alive = True
        gone = FALSE
        for x in items:
            self.assign(s.target, x, fid, st)
            falls, ex = self.exec_block(s.body, fid, st)
            cont = []
            ex = exclusive(ex, gone)
            for e in ex:
                if e.kind == "break":
                    gone = or_(gone, e.g)
            for e in ex:
                if e.kind == "continue":
                    cont.append(e)
                elif e.kind == "break":
                    broke.append(e)
                else:
                    exits.append(e)
            if not falls and not cont:
                alive = False
                break
            if cont:
                items_ = [(e.g, e.st) for e in cont]
                if falls:
                    items_.append((TRUE, st))
                g, cur = items_[-1]
                for g2, s2 in reversed(items_[:-1]):
                    cur = self.merge(g2, s2, cur)
                facts = common_facts([z for _, z in items_])
                self.adopt(st, cur)
                st.top = Layer(st.top)
                st.facts = facts
                for e in ex:
                    if e.kind != "continue":
                        self.assume(st, e.g, False)
            else:
                for e in ex:
                    self.assume(st, e.g, False)
        if broke:
            # merge broken states with normal completion
            if alive:
                if s.orelse:
                    f2, e2 = self.exec_block(s.orelse, fid, st)
                    exits += e2
                    alive = f2
            items_ = [(e.g, e.st) for e in broke]
            if alive:
                items_.append((TRUE, st))
            g, cur = items_[-1]
            for g2, s2 in reversed(items_[:-1]):
                cur = self.merge(g2, s2, cur)
            facts = common_facts([z for _, z in items_])
            self.adopt(st, cur)
            st.top = Layer(st.top)
            st.facts = facts
            return True, exits
        if alive and s.orelse:
            f2, e2 = self.exec_block(s.orelse, fid, st)
            return f2, exits + e2
        return alive, exits

    def st_While(self, s, fid, st):
        # try concrete unrolling for a few steps when the condition folds
        c = self.truth(self.ev(s.test, fid, st.fork()), st)
        if c is FALSE:
            if s.orelse:
                return self.exec_block(s.orelse, fid, st)
            return True, []
        return self.sym_loop(s, fid, st, seq=None)

    def sym_loop(self, s, fid, st, seq):
        body = s.body
        names = set()
        for b in body:
            for t in ast.walk(b):
                if isinstance(t, ast.Name) and isinstance(t.ctx, (ast.Store, ast.Del)):
                    names.add(t.id)
        fr = self.frames[fid]
        carried = []
        for nm in sorted(names):
            if fr.locals is not None and nm in fr.locals and st.get((fid, nm)) is not MISSING:
                carried.append((fid, nm))
        tgt = set()
        if seq is not None:
            for t in ast.walk(s.target):
                if isinstance(t, ast.Name):
                    tgt.add((fid, t.id))
        carried = [k for k in carried if k not in tgt]
        if s.orelse:
            raise Undecided("else of a loop")

        def run(child, i):
            if seq is not None:
                g = getattr(seq, "guard", None)
                self.assign(s.target, seq.elem(i, child), fid, child)
                cond = TRUE
                if g is not None:
                    hold = Held()
                    hold.val = g(i)
                    falls, ex = self.exec_block([ast.copy_location(ast.If(hold, body, []), s)], fid, child)
                    return cond, falls, ex
            else:
                cond = self.truth(self.ev(s.test, fid, child), child)
                self.assume(child, cond, True)
            falls, ex = self.exec_block(body, fid, child)
            return cond, falls, ex
        return self.generic_loop(st, carried, run, seq, tgt, fid)

    def generic_loop(self, st, carried, run, seq, skip, fid):
        carried = list(carried)
        for attempt in range(6):
            base = self.n
            child = st.fork()
            anc = child.top.parent
            i = self.loop_index()
            var = {}
            child.set(EFF, ())
            for k in carried:
                init = st.get(k)
                var[k] = self.sym_like(k, init, st, child)
            cond, falls, ex = run(child, i)
            ex = exclusive(ex)
            cont = [e for e in ex if e.kind == "continue"]
            brk = [e for e in ex if e.kind == "break"]
            ret = [e for e in ex if e.kind == "return"]
            rs = [e for e in ex if e.kind == "raise"]
            # state at end of an iteration
            its = [(e.g, e.st) for e in ex if e.kind in ("continue", "break", "return")]
            if falls:
                its.append((TRUE, child))
            if not its:
                # body always raises
                its = [(TRUE, child)]
            g, cur = its[-1]
            for g2, s2 in reversed(its[:-1]):
                cur = self.merge(g2, s2, cur)
            ch = [k for k in changed(cur.top, anc) if k != EFF and k[0] != "TRY" and k not in skip and
                  (self.is_old_key(k, base) or (k[0] == fid))]
            new = [k for k in ch if k not in carried and st.get(k) is not MISSING]
            if new:
                carried += [k for k in new]
                continue
            break
        else:
            raise Undecided("loop did not stabilise")
        for e in rs:
            if e.g is not FALSE:
                self.effect(cur, mk("raise_if", e.g, e.val))
        eff = cur.get(EFF)
        stop = FALSE
        for e in brk + ret:
            stop = or_(stop, e.g)
        leaves = []         # (key, path, init T, fv, next T)
        for k in carried:
            self.collect(k, var[k], st.get(k), cur.get(k), st, cur, leaves)
        fvs = {l[3].args[0]: l for l in leaves if l[3] is not None}
        isfor = seq is not None
        n = seq.n if isfor else None
        header = cond if not isfor else None
        # effects
        efft = self.segs_term(eff, cur)
        res = {}
        for l in leaves:
            res[(l[0], l[1])] = self.close_leaf(l, fvs, n, i, stop, header)
        for k in carried:
            st.set(k, self.rebuild_like(k, var[k], st.get(k), res, st))
        # variables first bound inside the loop
        for k in changed(cur.top, anc):
            if k in carried or k == EFF or k[0] == "TRY":
                continue
            if k in skip or (isinstance(k[0], int) and k[0] == fid and st.get(k) is MISSING):
                v = cur.get(k)
                try:
                    t = self.R(v, cur)
                except Undecided:
                    continue
                if isinstance(v, (FuncV, ClassV, ModV)):
                    st.set(k, v)
                    continue
                st.set(k, self.close_last(t, fvs, n, i, stop, header))
        if not (efft.op == "list" and not efft.args):
            ft = self.close_value(("flat",), efft, fvs, n, i, stop, header)
            self.effect(st, ft)
        exits = []
        if rs:
            pass
        if ret:
            found = FALSE
            rv = None
            for e in reversed(ret):
                t = self.R(e.val, e.st)
                rv = t if rv is None else ite(e.g, t, rv)
                found = or_(found, e.g)
            cnd = self.any_of(found, fvs, n, i, stop, header)
            val = self.close_value(("first",), ite(found, rv, NONE), fvs, n, i, stop, header)
            sx = st.fork()
            exits.append(Exit(cnd, "return", val, sx))
            self.assume(st, cnd, False)
        return True, exits

    def sym_like(self, k, init, st, child):
        """Fresh symbolic value of the same shape for a carried location."""
        if k[0] == "L":
            v = fresh()
            child.set(k, (("s", v),))
            return v
        if k[0] == "D":
            v = fresh()
            child.set(k, v)
            return v

        def go(x):
            if isinstance(x, TupV):
                return TupV([go(y) for y in x.items])
            if isinstance(x, RefV):
                return x
            if isinstance(x, (FuncV, PyF, BoundV, ClassV, ModV)):
                return x
            v = fresh()
            if isinstance(x, T):
                ty = self.typ(x)
                if ty is not None:
                    self.types[v.dig] = ty
            return v
        v = go(init)
        child.set(k, v)
        return v

    def collect(self, k, var, init, nxt, st, cur, leaves, path=()):
        if k[0] in ("L", "D"):
            it = self.R(RefV(k[1], "list" if k[0] == "L" else "dict"), st)
            if k[0] == "L":
                nt = nxt
            else:
                nt = nxt if isinstance(nxt, T) else mk("dict", tuple((self.R(a, cur), self.R(b, cur)) for a, b in nxt.values()))
            if k[0] == "L":
                nseg = nxt if isinstance(nxt, tuple) else (("s", nxt),)
                if nseg and nseg[0] == ("s", var):
                    app = nseg[1:]
                    leaves.append((k, path, it, var, ("append", app, cur)))
                    return
                nt = self.segs_term(nseg, cur)
            leaves.append((k, path, it, var, nt))
            return
        if isinstance(var, TupV):
            nx = self.resolve(cur, nxt)
            items = self.known_items(nx, cur)
            if items is None or len(items) != len(var.items):
                items = [self.subscript(nx, num(j), cur) for j in range(len(var.items))]
            for j, (a, b, c) in enumerate(zip(var.items, init.items, items)):
                self.collect(k, a, b, c, st, cur, leaves, path + (j,))
            return
        if isinstance(var, (RefV, FuncV, PyF, BoundV, ClassV, ModV)):
            if nxt is var:
                leaves.append((k, path, None, None, None))
                return
            raise_if = None
            try:
                nt = self.R(nxt, cur)
                leaves.append((k, path, self.R(init, st), fresh(), nt))
            except Undecided:
                leaves.append((k, path, None, None, None))
            return
        leaves.append((k, path, self.R(init, st), var, self.R(nxt, cur)))

    def rebuild_like(self, k, var, init, res, st, path=()):
        if k[0] == "L":
            return (("s", res[(k, path)]),) if not isinstance(res[(k, path)], tuple) else res[(k, path)]
        if k[0] == "D":
            return res[(k, path)]
        if isinstance(var, TupV):
            return TupV([self.rebuild_like(k, v, ini, res, st, path + (j,)) for j, (v, ini) in enumerate(zip(var.items, init.items))])
        r = res[(k, path)]
        if r is None:
            return init
        return r

    def leaf_next(self, l):
        nx = l[4]
        if isinstance(nx, tuple):
            return cat([l[3], self.segs_term(nx[1], nx[2])])
        return nx

    def close_leaf(self, l, fvs, n, i, stop, header):
        k, path, init, v, nxt = l
        if v is None:
            return None
        isfor = header is None
        carried_ids = frozenset(fvs)
        clean = lambda t: not (t.fv & carried_ids)
        if isinstance(nxt, tuple):
            app = nxt[1]
            if not app:
                return init
            t = self.segs_term(app, nxt[2])
            if isfor and stop is FALSE and clean(t):
                return cat([tolist(init), self.close_segs(n, i, app, nxt[2])])
        elif nxt is v:
            return init
        elif isfor and stop is not FALSE and clean(stop) and nxt.op == "ite" and ite(stop, v, nxt) is v and \
                clean(ite(stop, nxt, NONE)):
            # a search: the first hit, else the initial value
            c = self.any_of(stop, fvs, n, i, stop, header)
            return ite(c, self.close_value(("first",), ite(stop, nxt, NONE), fvs, n, i, stop, header), init)
        elif isfor and stop is FALSE:
            d = sub(nxt, v) if nxt.op in ("poly",) or nxt.op not in ("ite",) else None
            if d is not None and clean(d) and nxt.op == "poly":
                return add(init, sumover(self, n, i, d))
            if clean(nxt):
                if nxt.fv and i.args[0] in nxt.fv:
                    return mk("last", self.norm_count(n, i, [nxt]), lam([i], nxt), init)
                return mk("last", n, lam([i], nxt), init)
        return self.close_value(("val", l), self.leaf_next(l), fvs, n, i, stop, header)

    def any_of(self, found, fvs, n, i, stop, header):
        if header is None and not (found.fv & frozenset(fvs)) and found is stop:
            return mk("anyof", self.mk_seq(n, i, found))
        return mk("truth", self.close_value(("any",), found, fvs, n, i, stop, header))

    def close_last(self, t, fvs, n, i, stop, header):
        if header is None and stop is FALSE and not (t.fv & frozenset(fvs)):
            return mk("last", self.norm_count(n, i, [t]), lam([i], t), UNDEF)
        return self.close_value(("out",), t, fvs, n, i, stop, header)

    def close_value(self, what, t, fvs, n, i, stop, header):
        """Loop term for an observable t (over carried fvs) with cone pruning."""
        need = {}
        todo = [t, stop] + ([header] if header is not None else [])
        while todo:
            x = todo.pop()
            for q in x.fv:
                if q in fvs and q not in need:
                    need[q] = fvs[q]
                    todo.append(self.leaf_next(fvs[q]))
        order = self.order_cone(need, i, t, stop, header)
        vs = [fvs[q][3] for q in order]
        inits = tuple(fvs[q][2] for q in order)
        nexts = [self.leaf_next(fvs[q]) for q in order]
        kind = what[0]
        extra = []
        if kind == "val":
            sel = [q for q in range(len(order)) if order[q] == what[1][3].args[0]]
            if not sel:
                # the leaf itself is not in the cone of its next value
                obs = t
                kind = "out"
            else:
                obs = None
                extra = [sel[0]]
        if kind != "val":
            obs = t
        parts = [mk("tuple", *nexts), stop] + ([header] if header is not None else [])
        if obs is not None:
            parts.append(obs)
        body = mk("tuple", *parts)
        if header is None:
            nn = self.norm_count(n, i, [body])
            return loop_term(kind, nn, inits, lam([i] + vs, body), *extra)
        return while_term(kind, inits, lam(vs, body), *extra)

    def order_cone(self, need, i, t, stop, header):
        return sorted(need)


class SuperV:
    def __init__(self, getter):
        self.getter = getter


def sumover(I, n, i, d):
    return mk("sumover", I.norm_count(n, i, [d]), lam([i], d))


def seqlike(t):
    """A tuple or list for certain (so that + joins)."""
    if t.op in ("list", "cat", "tuple", "seq", "flat", "shape"):
        return True
    return t.op == "idx" and t.args[0].op == "shape" and t.args[1].op == "slice"


def tolist(t):
    if t.op == "tuple":
        return mk("list", *t.args)
    return t


DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "MatMult": "matmul", "Div": "truediv", "Mod": "mod",
          "FloorDiv": "floordiv", "Pow": "pow"}


def is_strish(t):
    return (t.op == "const" and isinstance(t.args[0], str) and not t.args[0].startswith("float:")) or t.op == "fstr"


def strpart(t):
    if t.op in ("fstr", "const"):
        return t
    return mk("fmt", t)


def num_binop(op, a, b):
    if op == "Add":
        return add(a, b)
    if op == "Sub":
        return sub(a, b)
    if op == "Mult":
        return mul(a, b)
    if op == "Div":
        return div(a, b)
    if op == "FloorDiv":
        return fdiv(a, b)
    if op == "Mod":
        return mod(a, b)
    if op == "Pow":
        return power(a, b)
    if op == "MatMult":
        return matmul(a, b)
    if op == "BitAnd":
        return band(a, b)
    if op == "BitOr":
        return bor(a, b)
    if op == "BitXor":
        return commut("bxor", [a, b]) if a is not b else FALSE
    if op == "LShift":
        return mul(a, power(num(2), b))
    if op == "RShift":
        return fdiv(a, power(num(2), b))
    raise Undecided(op)


_DIGC = {}


def ast_digest(node):
    import hashlib
    r = _DIGC.get(id(node))
    if r is None:
        r = (node, hashlib.blake2b(ast.dump(node).encode(), digest_size=8).hexdigest())
        _DIGC[id(node)] = r
    return r[1]


CANON = [("jax.numpy.", "np."), ("numpy.", "np."), ("onp.", "np.")]


def canon(name):
    if name in ("jax.numpy", "numpy", "onp"):
        return "np"
    for a, b in CANON:
        if name.startswith(a):
            return b + name[len(a):]
    if name.startswith("jax.tree_util."):
        nm = name[len("jax.tree_util."):]
        if nm.startswith("tree_"):
            return "jax.tree." + nm[5:]
    if name.startswith("jax.Array"):
        return name.replace("jax.Array", "np.ndarray")
    if name == "functools.partial" or name == "jax.tree_util.Partial":
        return "functools.partial"
    return name


def _fork_view(self):
    """Snapshot for an exit: freeze and share."""
    self.freeze()
    return St(Layer(self.top.parent), dict(self.facts), self.path)


St.fork_view = _fork_view
