"""Models of builtins, numpy/jax.numpy and the JAX transforms."""
from __future__ import annotations
import ast, re
from fractions import Fraction
from . import terms as tm
from .terms import (T, mk, const, num, NONE, TRUE, FALSE, ZERO, ONE, ELLIPSIS, ite, and_, or_, not_, add, sub,
                    mul, div, fdiv, mod, power, neg, gt, ge, eq, is_const, intval, unk, fresh, lam, is_bool,
                    subterms)
from .ops import (idx, seti, len_, slice_, cat, shape, transpose, matmul, band, bor, binv, where, commut, FULL, abs_, call_, size_)
from .values import *
from . import interp as ip

MINUS1 = num(-1)


def fstr(parts):
    out = []
    for p in parts:
        ps = p.args if p.op == "fstr" else (p,)
        for q in ps:
            if q.op == "const" and isinstance(q.args[0], str) and out and out[-1].op == "const" and isinstance(out[-1].args[0], str):
                out[-1] = const(out[-1].args[0] + q.args[0])
            else:
                out.append(q)
    out = [p for p in out if not (p.op == "const" and p.args[0] == "")]
    if not out:
        return const("")
    if len(out) == 1 and out[0].op == "const":
        return out[0]
    return mk("fstr", *out)


def tl(I, v, st):
    """Reify with lists canonicalised to tuples at the top level."""
    t = I.R(v, st)
    if t.op == "list":
        return mk("tuple", *[totup(x) for x in t.args])
    return t


def totup(t):
    if t.op == "list":
        return mk("tuple", *[totup(x) for x in t.args])
    return t


def generic(I, f, args, kwargs, st, sig=None):
    pos = [tl(I, a, st) for a in args]
    kw = {k: tl(I, v, st) for k, v in kwargs.items()}
    name = f
    if isinstance(f, T) and f.op == "ext":
        name = f.args[0]
    if isinstance(name, str) and sig is None:
        sig = SIGS.get(name)
    if sig is not None and not any(p.op == "star" for p in pos) and "**" not in kw:
        names, defaults = sig
        if len(pos) <= len(names):
            for n, p in zip(names, pos):
                kw[n] = p
            pos = []
            for n in list(kw):
                if n in defaults and kw[n] is defaults[n]:
                    del kw[n]
            # leading positional arguments print nicer
    return mk("call", name, tuple(pos), tuple(sorted(kw.items())))


def S(spec, **defaults):
    names = spec.split()
    return names, {k: const(v) for k, v in defaults.items()}


SIGS = {
    "np.sum": S("a axis dtype out keepdims", axis=None, dtype=None, keepdims=False),
    "np.mean": S("a axis dtype out keepdims", axis=None, dtype=None, keepdims=False),
    "np.prod": S("a axis dtype out keepdims", axis=None, keepdims=False),
    "np.max": S("a axis out keepdims", axis=None, keepdims=False),
    "np.min": S("a axis out keepdims", axis=None, keepdims=False),
    "np.all": S("a axis out keepdims", axis=None, keepdims=False),
    "np.any": S("a axis out keepdims", axis=None, keepdims=False),
    "np.argmax": S("a axis", axis=None),
    "np.argmin": S("a axis", axis=None),
    "np.argsort": S("a axis", axis=-1),
    "np.sort": S("a axis", axis=-1),
    "np.cumsum": S("a axis dtype", axis=None, dtype=None),
    "np.stack": S("arrays axis", axis=0),
    "np.concatenate": S("arrays axis", axis=0),
    "np.repeat": S("a repeats axis total_repeat_length", axis=None, total_repeat_length=None),
    "np.tile": S("A reps"),
    "np.reshape": S("a shape order", order="C"),
    "np.expand_dims": S("a axis"),
    "np.squeeze": S("a axis", axis=None),
    "np.zeros": S("shape dtype", dtype=None),
    "np.ones": S("shape dtype", dtype=None),
    "np.empty": S("shape dtype", dtype=None),
    "np.full": S("shape fill_value dtype", dtype=None),
    "np.zeros_like": S("a dtype", dtype=None),
    "np.ones_like": S("a dtype", dtype=None),
    "np.full_like": S("a fill_value dtype", dtype=None),
    "np.arange": S("start stop step dtype", dtype=None),
    "np.linspace": S("start stop num endpoint retstep dtype", endpoint=True, retstep=False, dtype=None, num=50),
    "np.linalg.norm": S("x ord axis keepdims", ord=None, axis=None, keepdims=False),
    "np.cross": S("a b axisa axisb axisc axis"),
    "np.unique": S("ar return_index return_inverse return_counts axis", return_index=False, return_inverse=False,
                   return_counts=False, axis=None),
    "np.moveaxis": S("a source destination"),
    "np.swapaxes": S("a axis1 axis2"),
    "np.roll": S("a shift axis", axis=None),
    "np.flip": S("m axis", axis=None),
    "np.take": S("a indices axis", axis=None),
    "np.searchsorted": S("a v side", side="left"),
    "np.isclose": S("a b rtol atol"),
    "np.allclose": S("a b rtol atol"),
    "np.eye": S("N M k dtype", M=None, k=0, dtype=None),
    "np.meshgrid": S("x1 x2 x3"),
    "np.broadcast_to": S("array shape"),
    "np.array": S("object dtype", dtype=None),
    "np.asarray": S("a dtype", dtype=None),
    "np.trace": S("a offset axis1 axis2", offset=0, axis1=0, axis2=1),
    "np.vdot": S("a b"),
    "np.pad": S("array pad_width mode", mode="constant"),
    "np.diff": S("a n axis", n=1, axis=-1),
    "np.isin": S("element test_elements"),
    "np.lexsort": S("keys axis", axis=-1),
    "np.clip": S("a a_min a_max", a_min=None, a_max=None),
    "jax.ShapeDtypeStruct": S("shape dtype"),
    "jax.lax.dynamic_update_slice": S("operand update start_indices"),
}

ARRAY_METHODS = {"sum", "mean", "prod", "max", "min", "all", "any", "argmax", "argmin", "argsort", "cumsum", "repeat",
                 "squeeze", "swapaxes", "clip", "take", "dot", "round", "nonzero", "conj", "trace", "diagonal", "std"}


def term_attr(I, v, name, st):
    if name == "T":
        return transpose(v)
    if name == "mT":
        return mk("call", "np.matrix_transpose", (v,), ())
    if name == "shape":
        if v.op == "call" and v.args[0] in ("np.zeros", "np.ones", "np.full", "np.empty"):
            d = dict(v.args[2])
            if "shape" in d:
                s = d["shape"]
                return s if s.op == "tuple" else None
        return shape(v)
    if name == "ndim":
        return mk("ndim", v)
    if name == "size":
        return size_(v)
    if name == "at":
        return mk("at", v)
    return None


IDENT_METHODS = {"copy", "block_until_ready", "tolist", "item", "ascontiguousarray", "view"}


def unat(t):
    """The array of an `x.at` term, also when x is chosen by conditions."""
    if t.op == "at":
        return t.args[0]
    if t.op == "ite" and isinstance(t.args[1], tm.T) and isinstance(t.args[2], tm.T):
        a = unat(t.args[1])
        b = unat(t.args[2]) if a is not None else None
        if b is not None:
            return ite(t.args[0], a, b)
    return None


def call_method(I, base, name, args, kwargs, st, node):
    cls = I.typ(base)
    arr = unat(base.args[0]) if base.op == "idx" else None
    if arr is not None:
        ix = base.args[1]
        kw = {k: v for k, v in kwargs.items() if k not in ("indices_are_sorted", "unique_indices")}
        v = tl(I, args[0], st) if args else NONE
        if name == "set":
            if "mode" in kw:
                return mk("setm", arr, ix, v, I.R(kw["mode"], st))
            return seti(arr, ix, v)
        if name == "get":
            return idx(arr, ix)
        if name == "subtract":
            name, v = "add", neg(v)
        return mk("scatter", name, arr, ix, v, *[I.R(x, st) for x in kw.values()])
    if isinstance(cls, ClassV):
        return mk("call", "meth." + name, (base,) + tuple(tl(I, a, st) for a in args),
                  tuple(sorted((k, tl(I, v, st)) for k, v in kwargs.items())))
    if name in ("reshape",):
        if len(args) == 1:
            sh = tl(I, args[0], st)
        else:
            sh = mk("tuple", *[tl(I, a, st) for a in args])
        return reshape(base, sh, kwargs, I, st)
    if name in ("ravel", "flatten") and not args and not kwargs:
        return reshape(base, MINUS1, {}, I, st)
    if name == "transpose":
        if not args:
            return transpose(base)
        a = tl(I, args[0], st) if len(args) == 1 else mk("tuple", *[tl(I, x, st) for x in args])
        return mk("call", "np.transpose", (base, a), ())
    if name == "astype":
        return astype(base, tl(I, args[0] if args else kwargs["dtype"], st))
    if name in IDENT_METHODS and not args:
        return base
    if name == "dot":
        return matmul(base, tl(I, args[0], st))
    if name in ARRAY_METHODS and base.op not in ("sym_obj",):
        return call_ext(I, "np." + name, [base] + list(args), kwargs, st, node)
    if name == "sort":
        return mk("call", "np.sort", (), (("a", base),))
    if name == "fill":
        return NONE
    if name == "items" and base.op == "dict":
        return TupV([TupV([k, v]) for k, v in base.args[0]])
    if name in ("values", "keys") and base.op == "dict":
        return TupV([(v if name == "values" else k) for k, v in base.args[0]])
    if name == "get" and base.op == "dict":
        k = I.R(args[0], st)
        for kk, v in base.args[0]:
            if kk is k:
                return v
        if k.op == "const":
            return args[1] if len(args) > 1 else NONE
    if name == "get":
        k = I.R(args[0], st)
        d = I.R(args[1], st) if len(args) > 1 else NONE
        return ite(mk("in", k, base), idx(base, k), d)
    if name in ("items", "keys", "values") and not args:
        t = mk("call", "dict." + name, (base,), ())
        if name == "items":
            return SeqV(None, mk("len", base), lambda i, s: TupV([mk("dkey", base, i), mk("dval", base, i)]))
        if name == "keys":
            return SeqV(None, mk("len", base), lambda i, s: mk("dkey", base, i))
        return SeqV(None, mk("len", base), lambda i, s: mk("dval", base, i))
    if base.op == "const" and isinstance(base.args[0], str):
        r = str_method(I, base, name, args, kwargs, st)
        if r is not None:
            return r
    if name == "join" or name == "format":
        pass
    if name in ("append", "extend", "update", "add", "insert", "remove", "clear", "setdefault", "pop") and base.op in ("global", "attr", "sym", "fv", "idx"):
        t = mk("call", "mut." + name, (base,) + tuple(tl(I, a, st) for a in args), ())
        I.effect(st, mk("do", t))
        return mk("call", "pure:mut." + name, (base,) + tuple(tl(I, a, st) for a in args), ())
    # method of an opaque object
    t = mk("call", "meth." + name, (base,) + tuple(tl(I, a, st) for a in args),
              tuple(sorted((k, tl(I, v, st)) for k, v in kwargs.items())))
    if name in HOOKS and mk("attr", base, name).dig in I.virtual:
        I.effect(st, mk("do", t))
    return t


def str_method(I, base, name, args, kwargs, st):
    s = base.args[0]
    av = []
    for a in args:
        t = I.R(a, st) if not isinstance(a, (RefV, TupV, SeqV)) else None
        if t is None:
            items = I.known_items(a, st)
            if items is None:
                return None
            items = [I.R(x, st) for x in items]
            if name == "join":
                parts = []
                for k, x in enumerate(items):
                    if k:
                        parts.append(base)
                    parts.append(ip.strpart(x))
                return fstr(parts)
            if not all(x.op == "const" for x in items):
                return None
            av.append(tuple(x.args[0] for x in items))
            continue
        if t.op == "const":
            av.append(t.args[0])
        elif intval(t) is not None:
            av.append(intval(t))
        else:
            return None
    if kwargs:
        return None
    if name in ("lower", "upper", "strip", "startswith", "endswith", "replace", "rstrip", "lstrip", "split", "title"):
        r = getattr(s, name)(*av)
        if isinstance(r, list):
            return TupV([const(x) for x in r])
        return const(r)
    return None


def dims(sh):
    if sh.op == "tuple" and any(e.op == "star" for e in sh.args):
        sh = cat([e.args[0] if e.op == "star" else mk("list", e) for e in sh.args])
    if sh.op in ("tuple", "list") and len(sh.args) == 1:
        sh = sh.args[0]
    if sh.op == "list":
        sh = mk("tuple", *sh.args)
    return sh


def reshape(x, sh, kwargs, I, st):
    sh = dims(sh)
    order = kwargs.get("order")
    if order is not None and not is_const(I.R(order, st), "C"):
        return mk("reshape", x, sh, I.R(order, st))
    if x.op == "reshape" and len(x.args) == 2:
        x = x.args[0]
    if sh is MINUS1 and x.op == "call" and x.args[0] in ("np.arange",):
        return x
    if x.op == "call" and x.args[0] in ("np.zeros", "np.ones") and sh is not MINUS1:
        pass
    return mk("reshape", x, sh)


def _rb_reshape(x, sh, *o):
    if o:
        return mk("reshape", x, sh, *o)
    if x.op == "reshape" and len(x.args) == 2:
        x = x.args[0]
    return mk("reshape", x, sh)


tm.REBUILD["reshape"] = _rb_reshape


def dtype_norm(d):
    if d.op == "ext":
        n = d.args[0].split(".")[-1]
        n = {"float": "float64", "int": "int64", "float_": "float64", "bool_": "bool", "double": "float64"}.get(n, n)
        return mk("dtype", n)
    if d.op == "const" and isinstance(d.args[0], str):
        return mk("dtype", d.args[0])
    return d


def dtype_of(x):
    """The element type, where the term shows it."""
    if x.op == "astype":
        return x.args[1]
    if x.op in ("idx", "set", "reshape", "transpose"):
        return dtype_of(x.args[0])
    return None


def astype(x, d):
    d = dtype_norm(d)
    if d.op == "dtype" and dtype_of(x) is d:
        return x
    return mk("astype", x, d)


tm.REBUILD["astype"] = astype


def trivial_context(t):
    if t.op == "call" and isinstance(t.args[0], str):
        n = t.args[0]
        return n.startswith("jax.named_scope") or n.startswith("warnings.") or n.startswith("jax.profiler") or \
            n.startswith("feax.profiler") or n.startswith("contextlib.") or n.startswith("gen:")
    return False


# ------------------------------------------------------------------ ext calls
EXT = {}
# user hooks that act on the pipeline object itself
HOOKS = {"build", "initial_state", "step", "save", "monitor", "adapt_dt", "mesh_build", "custom_init"}


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco


def call_ext(I, name, args, kwargs, st, node=None):
    if name.startswith("meth:"):
        return call_ref_method(I, name[5:], args, kwargs, st, node)
    # lift over IteV arguments only for known structural functions
    h = EXT.get(name)
    if h is None and name.startswith("builtins."):
        b = name[9:]
        if b and b[0].isupper():       # exception constructors etc.
            return mk("call", "exc:" + b, (), ())
        h = EXT.get(b)
    if h is not None:
        if any(isinstance(a, T) and a.op == "star" for a in args) and name not in STAR_OK:
            if len(args) == 1 and name in ("np.meshgrid", "np.stack"):
                pass
            return generic(I, name, args, kwargs, st, sig=([], {}))
        tk, ta = KwLog(kwargs), ArgLog(args)
        r = h(I, name, ta, tk, st)
        if r is not None:
            return unread(I, name, ta, tk, r, st)
    return generic(I, name, args, kwargs, st)


class KwLog(dict):
    """Keyword arguments, remembering which ones the model looked at."""
    def __init__(self, d):
        dict.__init__(self, d)
        self.read = set()

    def __getitem__(self, k):
        self.read.add(k)
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        self.read.add(k)
        return dict.get(self, k, d)

    def pop(self, k, *d):
        self.read.add(k)
        return dict.pop(self, k, *d)

    def __iter__(self):
        self.read.update(self.keys())
        return dict.__iter__(self)

    def items(self):
        self.read.update(dict.keys(self))
        return dict.items(self)

    def values(self):
        self.read.update(dict.keys(self))
        return dict.values(self)

    def copy(self):
        self.read.update(dict.keys(self))
        return dict(self)


class ArgLog(list):
    def __init__(self, l):
        list.__init__(self, l)
        self.read = set()

    def __getitem__(self, k):
        if isinstance(k, slice):
            self.read.update(range(*k.indices(len(self))))
        else:
            self.read.add(k if k >= 0 else k + len(self))
        return list.__getitem__(self, k)

    def __iter__(self):
        self.read.update(range(len(self)))
        return list.__iter__(self)

    def __add__(self, o):
        self.read.update(range(len(self)))
        return list.__add__(self, o)

    def __radd__(self, o):
        self.read.update(range(len(self)))
        return list.__add__(list(o), list(self))


def unread(I, name, ta, tk, r, st):
    """Arguments a model did not look at stay part of the value."""
    miss = [(k, v) for k, v in dict.items(tk) if k not in tk.read and (name, k) not in IGNORED and (None, k) not in IGNORED]
    pm = [j for j in range(list.__len__(ta)) if j not in ta.read and (name, j) not in IGNORED]
    if not miss and not pm:
        return r
    if name in IGNORE_ALL or not isinstance(r, T):
        return r
    try:
        return mk("withargs", r, tuple((k, I.R(v, st)) for k, v in sorted(miss, key=lambda p: p[0])),
                  tuple(I.R(list.__getitem__(ta, j), st) for j in pm))
    except Undecided:
        return r


IGNORED = {("builtins.getattr", 2), ("np.array", "copy"), ("np.asarray", "copy"), ("jax.jit", "static_argnames"),
           ("jax.jit", "static_argnums"), ("jax.jit", "donate_argnums"), ("functools.lru_cache", "maxsize"),
           ("jax.lax.scan", "unroll"), ("jax.lax.fori_loop", "unroll"), ("jax.jit", "inline"),
           ("jax.jit", "donate_argnames"), ("np.array", "order"), ("jax.lax.scan", "_split_transpose")}
IGNORE_ALL = {"builtins.print", "jax.debug.print", "warnings.warn", "warnings.simplefilter", "warnings.filterwarnings",
              "logging.getLogger", "dataclasses.dataclass", "jax.tree_util.register_pytree_node", "builtins.open",
              "functools.wraps", "jax.checkpoint", "jax.named_scope"}


STAR_OK = {"builtins.zip", "builtins.print", "functools.partial", "jax.pure_callback", "builtins.max", "builtins.min"}


def call_ref_method(I, name, args, kwargs, st, node):
    kind, m = name.split(".", 1)
    ref = args[0]
    args = args[1:]
    if kind in ("list", "set", "deque"):
        key = ("L", ref.id)
        segs = st.get(key)
        if isinstance(segs, T):
            segs = (("s", segs),)
        if m in ("append", "add"):
            if m == "add":
                t = I.R(args[0], st)
                if any(k == "i" and isinstance(v, T) and v is t for k, v in segs):
                    return NONE
            st.set(key, segs + (("i", args[0]),))
            return NONE
        if m in ("extend", "update"):
            st.set(key, segs + tuple(I.as_segs(args[0], st)))
            return NONE
        if m == "insert":
            k = intval(I.R(args[0], st))
            if k == 0:
                st.set(key, (("i", args[1]),) + segs)
                return NONE
            if k is not None and all(s[0] == "i" for s in segs):
                l = list(segs)
                l.insert(k, ("i", args[1]))
                st.set(key, tuple(l))
                return NONE
        if m == "pop":
            if not args and segs and segs[-1][0] == "i":
                st.set(key, segs[:-1])
                return segs[-1][1]
            if args and intval(I.R(args[0], st)) == 0 and segs and segs[0][0] == "i":
                st.set(key, segs[1:])
                return segs[0][1]
            t = I.segs_term(segs, st)
            a = tuple(I.R(x, st) for x in args)
            st.set(key, (("s", mk("popped", t, *a)),))
            return mk("popval", t, *a)
        if m == "popleft":
            if segs and segs[0][0] == "i":
                st.set(key, segs[1:])
                return segs[0][1]
        if m == "copy":
            return I.new_list(st, segs, kind)
        if m == "clear":
            st.set(key, ())
            return NONE
        if m == "sort":
            t = mk("sorted", I.segs_term(segs, st), *[I.R(v, st) for k, v in sorted(kwargs.items())])
            st.set(key, (("s", t),))
            return NONE
        if m == "reverse" and all(s[0] == "i" for s in segs):
            st.set(key, tuple(reversed(segs)))
            return NONE
        if m == "index" and all(s[0] == "i" for s in segs):
            t = I.R(args[0], st)
            for k, s in enumerate(segs):
                if I.R(s[1], st) is t:
                    return num(k)
        if m in ("union", "difference", "intersection", "issubset", "index", "count", "remove", "discard", "difference_update", "isdisjoint"):
            r = mk("call", "set." + m, (I.R(ref, st),) + tuple(I.R(a, st) for a in args), ())
            if m in ("remove", "discard", "difference_update"):
                st.set(key, (("s", r),))
                return NONE
            return r
        return mk("call", kind + "." + m, (I.R(ref, st),) + tuple(I.R(a, st) for a in args), ())
    if kind == "dict":
        key = ("D", ref.id)
        d = st.get(key)
        if m == "get":
            if isinstance(d, dict):
                k = I.R(args[0], st)
                if k.dig in d:
                    v = d[k.dig][1]
                    dv = args[1] if len(args) > 1 else NONE
                    if isinstance(v, IteV) and (v.a is MISSING or v.b is MISSING):
                        return I.merge_val(v.c, dv if v.a is MISSING else v.a, dv if v.b is MISSING else v.b, st, st, st)
                    if isinstance(v, T) and v.op == "ite" and "missing" in (v.args[1].op, v.args[2].op):
                        dv = I.R(dv, st)
                        return ite(v.args[0], dv if v.args[1].op == "missing" else v.args[1], dv if v.args[2].op == "missing" else v.args[2])
                    return I.resolve(st, v)
                if k.op in ("const", "num", "enum") and all(I.R(x, st).op in ("const", "num", "enum") for x, _ in d.values()):
                    return args[1] if len(args) > 1 else NONE
                dv = args[1] if len(args) > 1 else NONE
                v = dv
                for kk, x in reversed(list(d.values())):
                    v = I.merge_val(eq(k, I.R(kk, st)), x, v, st, st, st)
                return v
            k = I.R(args[0], st)
            dv = I.R(args[1], st) if len(args) > 1 else NONE
            return ite(mk("in", k, d), idx(d, k), dv)
        if m in ("items", "keys", "values"):
            if isinstance(d, dict):
                if m == "items":
                    return SeqV([TupV([k, v]) for k, v in d.values()])
                return SeqV([(k if m == "keys" else v) for k, v in d.values()])
            return call_method(I, d, m, args, kwargs, st, node)
        if m == "copy":
            i = I.nid()
            st.set(("D", i), dict(d) if isinstance(d, dict) else d)
            return RefV(i, "dict")
        if m == "update":
            src = args[0] if args else None
            pairs = {k: v for k, v in kwargs.items()}
            if isinstance(d, dict):
                nd = dict(d)
                ok = True
                if src is not None:
                    src = I.resolve(st, src)
                    if isinstance(src, RefV) and src.kind == "dict" and isinstance(st.get(("D", src.id)), dict):
                        nd.update(st.get(("D", src.id)))
                    else:
                        ok = False
                if ok:
                    for k, v in pairs.items():
                        nd[const(k).dig] = (const(k), v)
                    st.set(key, nd)
                    return NONE
                d = mk("dict", tuple((I.R(a, st), I.R(b, st)) for a, b in d.values()))
            t = d
            if src is not None:
                t = mk("dictmerge", d, I.R(src, st))
            for k, v in pairs.items():
                t = mk("set", t, const(k), I.R(v, st))
            st.set(key, t)
            return NONE
        if m == "pop":
            k = I.R(args[0], st)
            if isinstance(d, dict):
                if k.dig in d:
                    nd = dict(d)
                    v = nd.pop(k.dig)[1]
                    st.set(key, nd)
                    if len(args) > 1:
                        if isinstance(v, T) and v.op == "ite" and "missing" in (v.args[1].op, v.args[2].op):
                            dv = I.R(args[1], st)
                            return ite(v.args[0], dv if v.args[1].op == "missing" else v.args[1], dv if v.args[2].op == "missing" else v.args[2])
                    return I.resolve(st, v)
                if k.op == "const" and len(args) > 1:
                    return args[1]
                d = mk("dict", tuple((I.R(a, st), I.R(b, st)) for a, b in d.values()))
            st.set(key, mk("delitem", d, k))
            dv = I.R(args[1], st) if len(args) > 1 else mk("bottom")
            return ite(mk("in", k, d), idx(d, k), dv)
        if m == "setdefault":
            k = I.R(args[0], st)
            dv = args[1] if len(args) > 1 else NONE
            if isinstance(d, dict):
                if k.dig in d:
                    v = d[k.dig][1]
                    if isinstance(v, T) and v.op == "ite" and "missing" in (v.args[1].op, v.args[2].op):
                        dvt = I.R(dv, st)
                        v = ite(v.args[0], dvt if v.args[1].op == "missing" else v.args[1], dvt if v.args[2].op == "missing" else v.args[2])
                        nd = dict(d)
                        nd[k.dig] = (args[0], v)
                        st.set(key, nd)
                    return v
                if k.op == "const" or not d:
                    if not k.fv:
                        nd = dict(d)
                        nd[k.dig] = (args[0], dv)
                        st.set(key, nd)
                        return dv
                d = mk("dict", tuple((I.R(a, st), I.R(b, st)) for a, b in d.values()))
            r = ite(mk("in", k, d), idx(d, k), I.R(dv, st))
            st.set(key, mk("set", d, k, r))
            return r
        if m == "clear":
            st.set(key, {})
            return NONE
        dt = I.R(ref, st)
        return mk("call", "dict." + m, (dt,) + tuple(I.R(a, st) for a in args), ())
    if kind == "tuple":
        if m == "index":
            items = I.known_items(ref, st)
            if items is not None:
                t = I.R(args[0], st)
                for k, x in enumerate(items):
                    if I.R(x, st) is t:
                        return num(k)
        return call_method(I, I.R(ref, st), m, args, kwargs, st, node)
    if kind == "custom":
        if m == "def_vmap":
            st.set(("C", ref.id), tuple(st.get(("C", ref.id))[:2]) + (args[0],))
            return args[0]
        if m in ("defvjp", "defjvp"):
            a = list(args) + [kwargs[k] for k in ("fwd", "bwd") if k in kwargs]
            st.set(("C", ref.id), tuple(st.get(("C", ref.id))[:2]) + tuple(a))
            return NONE
        return NONE
    raise Undecided("method %s of %s" % (m, kind))


# ------------------------------------------------------------------ builtins
@ext("builtins.len")
def _len(I, n, a, k, st):
    v = I.resolve(st, a[0])
    items = I.known_items(v, st)
    if items is not None:
        return num(len(items))
    if isinstance(v, RefV) and v.kind == "obj":
        m = v.cls.find("__len__")
        if m is not None:
            return I.call_func(m, [], {}, st, self_val=v)
    if isinstance(v, SeqV):
        return v.n
    t = I.R(v, st)
    cls = I.typ(t)
    if isinstance(cls, ClassV):
        m = cls.find("__len__")
        if m is not None:
            return I.call_func(m, [], {}, st, self_val=t)
    return len_(t)


@ext("builtins.range")
def _range(I, n, a, k, st):
    ts = [I.R(x, st) for x in a]
    if len(ts) == 1:
        lo, hi, step = ZERO, ts[0], ONE
    elif len(ts) == 2:
        lo, hi, step = ts[0], ts[1], ONE
    else:
        lo, hi, step = ts
    iv = [intval(x) for x in (lo, hi, step)]
    if all(x is not None for x in iv) and len(range(*iv)) <= 200:
        return SeqV([num(x) for x in range(*iv)])
    if step is ONE:
        cnt = sub(hi, lo)
        return SeqV(None, cnt, lambda i, s: add(i, lo))
    if step is MINUS1:
        return SeqV(None, sub(lo, hi), lambda i, s: sub(lo, i))
    return SeqV(None, mk("rangelen", lo, hi, step), lambda i, s: add(lo, mul(i, step)))


@ext("builtins.zip")
def _zip(I, n, a, k, st):
    if any(isinstance(x, T) and x.op == "star" for x in a):
        return generic(I, n, a, {}, st, sig=([], {}))
    seqs = [I.to_seq(x, st) for x in a]
    if all(s.items is not None for s in seqs):
        m = min((len(s.items) for s in seqs), default=0)
        return SeqV([TupV([s.items[j] for s in seqs]) for j in range(m)])
    lens = []
    for s in seqs:
        lens += list(s.n.args) if s.n.op == "minlen" else [s.n]
    u = {x.dig: x for x in lens}
    # infinite sequences (itertools.count) do not bound the zip
    fin = [x for x in u.values() if not is_const(x, "INF")]
    nn = fin[0] if len(fin) == 1 else mk("minlen", *sorted(fin, key=lambda x: x.dig))
    known = [s for s in seqs if s.items is not None]
    if known:
        m = min(len(s.items) for s in known)
        if m <= 64:
            return SeqV([TupV([s.items[j] if s.items is not None else s.elem(num(j), st) for s in seqs]) for j in range(m)])
    return SeqV(None, nn, lambda i, s_: TupV([s.elem(i, s_) for s in seqs]))


@ext("itertools.count")
def _count(I, n, a, k, st):
    lo = I.R(a[0], st) if a else ZERO
    return SeqV(None, const("INF"), lambda i, s: add(i, lo))


@ext("builtins.enumerate")
def _enum(I, n, a, k, st):
    s = I.to_seq(a[0], st)
    off = I.R(a[1], st) if len(a) > 1 else (I.R(k["start"], st) if "start" in k else ZERO)
    if s.items is not None:
        return SeqV([TupV([add(num(j), off), x]) for j, x in enumerate(s.items)])
    return SeqV(None, s.n, lambda i, s_: TupV([add(i, off), s.elem(i, s_)]))


@ext("builtins.reversed")
def _reversed(I, n, a, k, st):
    s = I.to_seq(a[0], st)
    if s.items is not None:
        return SeqV(list(reversed(s.items)))
    return SeqV(None, s.n, lambda i, s_: s.elem(sub(sub(s.n, i), ONE), s_))


@ext("builtins.list", "builtins.tuple", "builtins.iter")
def _list(I, n, a, k, st):
    if not a:
        return I.new_list(st, ()) if n.endswith("list") else TupV(())
    v = I.resolve(st, a[0])
    items = I.known_items(v, st)
    if items is not None:
        return I.list_of(st, items) if n.endswith("list") else TupV(items)
    if n.endswith("list"):
        return I.new_list(st, I.as_segs(v, st))
    return I.R(v, st)


@ext("collections.deque")
def _deque(I, n, a, k, st):
    return I.new_list(st, I.as_segs(a[0], st) if a else (), "deque")


@ext("builtins.set", "builtins.frozenset")
def _set(I, n, a, k, st):
    if not a:
        return I.new_list(st, (), "set")
    v = I.resolve(st, a[0])
    return I.new_list(st, I.as_segs(v, st), "set")


@ext("builtins.dict", "collections.OrderedDict")
def _dict(I, n, a, k, st):
    if not a:
        if "**" in k:
            return I.R(k["**"], st)
        return I.new_dict(st, [(const(x), v) for x, v in k.items()])
    v = I.resolve(st, a[0])
    if isinstance(v, RefV) and v.kind == "dict":
        i = I.nid()
        d = st.get(("D", v.id))
        st.set(("D", i), dict(d) if isinstance(d, dict) else d)
        r = RefV(i, "dict")
        if k:
            call_ref_method(I, "dict.update", [r], k, st, None)
        return r
    items = I.known_items(v, st)
    if items is not None and not isinstance(v, T):
        pairs = [I.unpack(x, 2, st) for x in items]
        return I.new_dict(st, pairs)
    t = I.R(v, st)
    if t.op == "seq":
        return mk("dictof", t)
    return t


@ext("builtins.sorted")
def _sorted(I, n, a, k, st):
    items = I.known_items(a[0], st)
    if items is not None and not k:
        ts = [I.R(x, st) for x in items]
        if all(t.op == "num" for t in ts):
            return I.list_of(st, sorted(ts, key=lambda t: t.args[0]))
        if all(t.op == "const" and isinstance(t.args[0], str) for t in ts):
            return I.list_of(st, sorted(ts, key=lambda t: t.args[0]))
    return mk("sorted", I.R(a[0], st), *[mk("kw", kk, I.R(v, st)) for kk, v in sorted(k.items())])


@ext("builtins.isinstance")
def _isinstance(I, n, a, k, st):
    v = I.resolve(st, a[0])
    classes = I.known_items(a[1], st)
    if classes is None:
        classes = [a[1]]
    if isinstance(v, IteV):
        return ite(v.c, _isinstance(I, n, [v.a, a[1]], k, st), _isinstance(I, n, [v.b, a[1]], k, st))
    r = FALSE
    for c in classes:
        r = or_(r, inst1(I, v, c, st))
    return I.simp(st, r)


PYT = {"tuple": "tuple", "list": "list", "dict": "dict", "set": "set", "str": "str", "int": "int", "float": "float",
       "bool": "bool"}


def inst1(I, v, c, st):
    if isinstance(v, T) and v.op == "ite":
        return ite(v.args[0], inst1(I, v.args[1], c, st), inst1(I, v.args[2], c, st))
    cn = None
    if isinstance(c, T) and c.op == "ext":
        cn = c.args[0]
        if cn.startswith("builtins."):
            cn = cn[9:]
    if isinstance(v, RefV):
        if v.kind == "obj":
            if isinstance(c, ClassV):
                return TRUE if c in v.cls.mro() else FALSE
            if cn == "tuple":
                return TRUE if v.cls.is_namedtuple else FALSE
            return FALSE
        if cn in PYT:
            return TRUE if cn == v.kind else FALSE
        return FALSE
    if isinstance(v, TupV):
        return TRUE if cn in ("tuple", "collections.abc.Sequence") else FALSE
    if isinstance(v, (FuncV, PyF, BoundV)):
        return TRUE if cn in ("collections.abc.Callable", "typing.Callable") else FALSE
    if isinstance(v, ClassV):
        return TRUE if cn == "type" else FALSE
    t = I.R(v, st)
    if t.op == "const":
        ty = type(t.args[0]).__name__
        if cn == "float" and isinstance(t.args[0], str) and t.args[0].startswith("float:"):
            return TRUE
        if cn is not None:
            return TRUE if cn == ty or (cn == "int" and ty == "bool") else FALSE
        return FALSE
    if t.op == "num":
        if cn in ("int", "float"):
            isint = t.args[0].denominator == 1
            if not isint:
                return TRUE if cn == "float" else FALSE
            return mk("isinst", t, const(cn))
        if cn in PYT or cn is not None and cn.rsplit(".", 1)[-1] in ("ndarray", "Array", "BCOO", "Tracer"):
            return FALSE
        return mk("isinst", t, const(cn or "?")) if cn else FALSE
    if t.op in ("tuple", "list", "dict") and cn in PYT:
        return TRUE if t.op == cn else FALSE
    if t.op == "enum" and not isinstance(c, ClassV):
        return mk("isinst", t, const(cn or "?")) if cn == "int" and I.enum_is_int(t) else FALSE
    ty = I.typ(t)
    if isinstance(ty, ClassV):
        if isinstance(c, ClassV):
            if c in ty.mro():
                return TRUE
            if ty in c.mro():
                return mk("isinst", t, const(c.name))
            return FALSE
        return FALSE
    if isinstance(ty, tuple) and cn in PYT:
        return TRUE if cn in ("list", "tuple") else FALSE
    lab = c.name if isinstance(c, ClassV) else (cn or I.R(c, st))
    return mk("isinst", t, const(lab) if isinstance(lab, str) else lab)


@ext("builtins.hasattr")
def _hasattr(I, n, a, k, st):
    v = I.resolve(st, a[0])
    nm = I.R(a[1], st)
    if nm.op != "const":
        return mk("hasattr", I.R(v, st), nm)
    name = nm.args[0]
    if isinstance(v, RefV) and v.kind == "obj":
        if st.get(("O", v.id, name)) is not MISSING or v.cls.find(name) is not None:
            return TRUE
        return FALSE
    if isinstance(v, T):
        if st.get(("A", v.dig, name)) is not MISSING:
            return TRUE
        if v.op == "ite":
            return ite(v.args[0], _hasattr(I, n, [v.args[1], nm], k, st), _hasattr(I, n, [v.args[2], nm], k, st))
        ty = I.typ(v)
        if isinstance(ty, ClassV):
            if ty.find(name) is not None or any(f[0] == name for f in ty.all_fields()):
                return TRUE
            if name in init_attrs(I, ty):
                return TRUE
        if v.op in ("num", "const", "tuple", "list"):
            return FALSE
        return I.simp(st, mk("hasattr", v, nm))
    if isinstance(v, IteV):
        return ite(v.c, _hasattr(I, n, [v.a, nm], k, st), _hasattr(I, n, [v.b, nm], k, st))
    if isinstance(v, (RefV, TupV)):
        return FALSE
    if isinstance(v, ClassV):
        return TRUE if v.find(name) is not None else FALSE
    return mk("hasattr", I.R(v, st), nm)


_INITA = {}


def init_attrs(I, cls):
    """Attributes unconditionally assigned on self in __init__/__post_init__ at statement level."""
    r = _INITA.get(id(cls))
    if r is not None:
        r = r[1]
    if r is None:
        r = set()
        for c in cls.mro():
            for mname in ("__init__", "__post_init__"):
                m = c.attrs.get(mname)
                if isinstance(m, FuncV) and m.node.args.args:
                    me = m.node.args.args[0].arg
                    for s in m.node.body:
                        if isinstance(s, ast.Assign):
                            for t in s.targets:
                                for q in ast.walk(t):
                                    if isinstance(q, ast.Attribute) and isinstance(q.value, ast.Name) and q.value.id == me:
                                        r.add(q.attr)
        _INITA[id(cls)] = (cls, r)      # keeps the key's owner alive
    return r


@ext("builtins.getattr")
def _getattr(I, n, a, k, st):
    nm = I.R(a[1], st)
    if nm.op == "ite":
        return I.branch(nm.args[0], st, lambda s: _getattr(I, n, [a[0], nm.args[1]] + a[2:], k, s),
                        lambda s: _getattr(I, n, [a[0], nm.args[2]] + a[2:], k, s))
    if nm.op != "const":
        return mk("call", "getattr", tuple(I.R(x, st) for x in a), ())
    if len(a) == 2:
        return I.get_attr(a[0], nm.args[0], st)
    h = _hasattr(I, n, a[:2], {}, st)
    return I.branch(h, st, lambda s: I.get_attr(a[0], nm.args[0], s), lambda s: a[2])


@ext("builtins.setattr", "builtins.object.__setattr__")
def _setattr(I, n, a, k, st):
    nm = I.R(a[1], st)
    if nm.op == "const":
        I.set_attr(a[0], nm.args[0], a[2], st)
        return NONE
    raise Undecided("setattr")


@ext("builtins.type")
def _type(I, n, a, k, st):
    v = I.resolve(st, a[0])
    if isinstance(v, RefV) and v.kind == "obj":
        return v.cls
    if isinstance(v, T):
        ty = I.typ(v)
        if isinstance(ty, ClassV):
            return ty
    t = I.R(v, st)
    b = {"list": "list", "tuple": "tuple", "dict": "dict", "seq": "list", "set_": "set"}.get(t.op)
    if t.op == "const" and t.args[0] is not None:
        b = type(t.args[0]).__name__
    if b is not None:
        return mk("ext", "builtins." + b)
    return mk("call", "type", (t,), ())


@ext("builtins.callable")
def _callable(I, n, a, k, st):
    v = I.resolve(st, a[0])
    if isinstance(v, (FuncV, PyF, BoundV, ClassV)):
        return TRUE
    if isinstance(v, IteV):
        return ite(v.c, _callable(I, n, [v.a], k, st), _callable(I, n, [v.b], k, st))
    t = I.R(v, st)
    if t.op in ("const", "num", "tuple", "list", "enum"):
        return FALSE
    if t.op == "ite":
        return ite(t.args[0], _callable(I, n, [t.args[1]], k, st), _callable(I, n, [t.args[2]], k, st))
    return I.simp(st, mk("callable", t))


@ext("builtins.int", "builtins.float", "builtins.bool", "builtins.str", "builtins.abs", "builtins.round", "builtins.repr",
     "builtins.hash", "builtins.id")
def _conv(I, n, a, k, st):
    nm = n[9:]
    if not a:
        return {"int": ZERO, "float": ZERO, "bool": FALSE, "str": const("")}[nm]
    if nm == "bool":
        return I.truth(a[0], st)
    t = I.R(a[0], st)
    if nm == "int":
        if t.op == "num":
            return num(int(t.args[0]))
        if t.op in ("len", "fdiv", "ndim", "size") or t in (TRUE, FALSE):
            return t if t not in (TRUE, FALSE) else num(int(t is TRUE))
        if t.op == "const" and isinstance(t.args[0], str):
            try:
                return num(int(t.args[0]))
            except ValueError:
                pass
        return mk("toint", t)
    if nm == "float":
        if t.op == "const" and isinstance(t.args[0], str):
            try:
                return const(float(t.args[0]))
            except ValueError:
                pass
        return t
    if nm == "str":
        if ip.is_strish(t):
            return t
        return fstr([mk("fmt", t)])
    if nm == "abs":
        return _abs(I, n, a, k, st)
    if nm == "id":
        return mk("call", "id", (t,), ())
    return mk("call", nm, tuple(I.R(x, st) for x in a), ())


@ext("np.abs", "np.absolute", "np.fabs", "math.fabs")
def _abs(I, n, a, k, st):
    t = I.R(a[0], st)
    if t.op == "num":
        return num(abs(t.args[0]))
    # |−x| = |x|
    return abs_(t)


@ext("builtins.sum")
def _bsum(I, n, a, k, st):
    init = I.R(a[1], st) if len(a) > 1 else ZERO
    start = a[1] if len(a) > 1 else None
    items = I.known_items(a[0], st)
    if items is not None:
        if start is not None and not isinstance(start, T):
            v = start
        else:
            v = init
        for x in items:
            v = I.binop("Add", v, x, st)
        return v
    t = I.R(a[0], st)
    parts = t.args if t.op == "cat" else (t,)
    r = init
    for p in parts:
        if p.op == "list":
            for x in p.args:
                r = add(r, x)
        elif p.op == "seq":
            r = add(r, mk("sumover", p.args[0], p.args[1]))
        else:
            r = add(r, mk("sumof", p))
    return r


@ext("builtins.max", "builtins.min")
def _minmax(I, n, a, k, st):
    op = n[9:]
    if len(a) == 1 and not (isinstance(a[0], T) and a[0].op == "star"):
        items = I.known_items(a[0], st)
        if items is None:
            t = I.R(a[0], st)
            return mk("call", "bi." + op, (t,), tuple(sorted((kk, I.R(v, st)) for kk, v in k.items())))
        a = items
    if k or any(isinstance(x, T) and x.op == "star" for x in a):
        return mk("call", "bi." + op, tuple(I.R(x, st) for x in a), tuple(sorted((kk, I.R(v, st)) for kk, v in k.items())))
    ts = [I.R(x, st) for x in a]
    if not ts:
        raise Undecided("max of nothing")
    return commut(op, ts)


@ext("np.maximum", "np.minimum", "np.fmax", "np.fmin")
def _mm(I, n, a, k, st):
    return commut("max" if "max" in n else "min", [I.R(x, st) for x in a])


@ext("builtins.any", "builtins.all")
def _anyall(I, n, a, k, st):
    items = I.known_items(a[0], st)
    isany = n.endswith("any")
    if items is not None:
        r = FALSE if isany else TRUE
        for x in items:
            c = I.truth(x, st)
            r = or_(r, c) if isany else and_(r, c)
        return r
    return mk("anyof" if isany else "allof", I.R(a[0], st))


@ext("builtins.map")
def _map(I, n, a, k, st):
    f = a[0]
    s = I.to_seq(_zip(I, "zip", a[1:], {}, st) if len(a) > 2 else a[1], st)
    many = len(a) > 2
    if s.items is not None:
        return SeqV([I.call(f, list(x.items) if many else [x], {}, st) for x in s.items])
    i = I.loop_index()
    e = s.elem(i, st)
    v = I.R(I.call(f, list(e.items) if many else [e], {}, st), st)
    return I.mk_seq(s.n, i, v)


@ext("builtins.filter")
def _filter(I, n, a, k, st):
    s = I.to_seq(a[1], st)
    if s.items is not None:
        segs = []
        for x in s.items:
            c = I.truth(I.call(a[0], [x], {}, st) if not (isinstance(a[0], T) and a[0] is NONE) else x, st)
            if c is TRUE:
                segs.append(("i", x))
            elif c is not FALSE:
                segs.append(("s", ite(c, mk("list", I.R(x, st)), mk("list"))))
        return I.new_list(st, segs)
    i = I.loop_index()
    x = s.elem(i, st)
    c = I.truth(I.call(a[0], [x], {}, st), st)
    t = ite(c, mk("list", I.R(x, st)), mk("list"))
    return mk("flat", I.norm_count(s.n, i, [t]), lam([i], t))


@ext("builtins.next")
def _next(I, n, a, k, st):
    items = I.known_items(a[0], st)
    if items:
        return items[0]
    f = I.filtered(a[0], st)
    if f is not None and len(a) == 2:
        i = I.loop_index()
        c = f.guard(i)
        x = I.R(f.elem(i, st), st)
        return ite(I.any_of(c, {}, f.n, i, c, None), I.close_value(("first",), ite(c, x, NONE), {}, f.n, i, c, None), I.R(a[1], st))
    return mk("call", "next", tuple(I.R(x, st) for x in a), ())


@ext("builtins.print", "logging.getLogger", "warnings.warn", "warnings.simplefilter", "warnings.filterwarnings", "jax.debug.print")
def _print(I, n, a, k, st):
    if n == "warnings.warn":
        I.effect(st, mk("warn"))
        return NONE
    return NONE


@ext("typing.cast")
def _cast(I, n, a, k, st):
    return a[1]


@ext("typing.TypeVar", "logging.getLogger")
def _tv(I, n, a, k, st):
    return mk("call", "pure:" + n, (), ())


@ext("builtins.slice")
def _slice(I, n, a, k, st):
    ts = [I.R(x, st) for x in a]
    if len(ts) == 1:
        return slice_(NONE, ts[0], NONE)
    return slice_(ts[0], ts[1], ts[2] if len(ts) > 2 else NONE)


@ext("builtins.divmod", "np.divmod")
def _divmod(I, n, a, k, st):
    x, y = I.R(a[0], st), I.R(a[1], st)
    return TupV([fdiv(x, y), mod(x, y)])


@ext("builtins.pow", "np.power", "np.float_power", "math.pow")
def _pow(I, n, a, k, st):
    return power(I.R(a[0], st), I.R(a[1], st))


@ext("builtins.property", "builtins.staticmethod", "builtins.classmethod", "functools.lru_cache", "functools.cache",
     "functools.wraps", "jax.jit", "jax.checkpoint", "jax.remat", "equinox.filter_jit")
def _ident_deco(I, n, a, k, st):
    if n == "functools.wraps" or not a or not isinstance(a[0], (FuncV, PyF, BoundV, RefV, IteV, T)) or \
            (isinstance(a[0], T) and a[0].op in ("num", "const")):
        return PyF(lambda I_, s, b, kk: b[0], label="deco")
    return a[0]


@ext("functools.partial")
def _partial(I, n, a, k, st):
    f, pre = a[0], list(a[1:])
    kw = dict(k)
    nargs = 1
    base = f.f if isinstance(f, BoundV) else f
    if isinstance(base, FuncV):
        ps = [p for p in I.fn_params(base) if p[2] == "pos" and p[0] not in kw and p[1] is None]
        nargs = max(0, len(ps) - len(pre) - (1 if isinstance(f, BoundV) else 0))
    return PyF(lambda I_, s, b, kk: I_.call(f, pre + b, {**kw, **kk}, s), nargs, label="partial")


@ext("dataclasses.replace", "copy.replace", "equinox.tree_at")
def _replace(I, n, a, k, st):
    return replace_obj(I, a[0], k, st)


def replace_obj(I, v, kw, st):
    v = I.resolve(st, v)
    if isinstance(v, RefV) and v.kind == "obj":
        f = dict(I.obj_fields(v, st))
        names = [x[0] for x in v.cls.all_fields()] or list(f)
        f.update(kw)
        return I.instantiate(v.cls, [], {x: f[x] for x in names if x in f}, st)
    if isinstance(v, T):
        cls = I.typ(v)
        if isinstance(cls, ClassV) and "**" not in kw:
            f = {x[0]: I.get_attr(v, x[0], st) for x in cls.all_fields()}
            f.update(kw)
            return I.instantiate(cls, [], f, st)
    return mk("call", "replace", (I.R(v, st),), tuple(sorted((a, I.R(b, st)) for a, b in kw.items())))


@ext("dataclasses.fields")
def _fields(I, n, a, k, st):
    v = I.resolve(st, a[0])
    cls = v if isinstance(v, ClassV) else (v.cls if isinstance(v, RefV) else I.typ(v))
    if isinstance(cls, ClassV):
        out = []
        for f in cls.all_fields():
            out.append(mk("obj", "Field", (("name", const(f[0])),)))
        return TupV(out)
    return None


@ext("copy.copy", "copy.deepcopy")
def _copy(I, n, a, k, st):
    v = I.resolve(st, a[0])
    if isinstance(v, RefV) and v.kind == "obj":
        o = I.nid()
        r = RefV(o, "obj", v.cls)
        st.set(("OF", o), ())
        for f, x in I.obj_fields(v, st).items():
            I.set_attr(r, f, x, st)
        return r
    if isinstance(v, RefV) and v.kind in ("list", "set"):
        return I.new_list(st, I.as_segs(v, st), v.kind)
    if isinstance(v, RefV) and v.kind == "dict":
        return call_ref_method(I, "dict.copy", [v], {}, st, None)
    return v


# ------------------------------------------------------------------ numpy
@ext("np.asarray", "np.array", "np.ascontiguousarray", "jax.device_put", "np.asfortranarray", "jax.device_get", "np.copy")
def _asarray(I, n, a, k, st):
    dt = k.get("dtype", a[1] if len(a) > 1 and n != "jax.device_put" else NONE)
    t = tl(I, a[0], st)
    dt = I.R(dt, st)
    if dt is NONE:
        return t
    return astype(t, dt)


@ext("np.float64", "np.float32", "np.int32", "np.int64")
def _np_scalar(I, n, a, k, st):
    return astype(tl(I, a[0], st), mk("dtype", n[3:]))


@ext("np.sqrt", "math.sqrt")
def _sqrt(I, n, a, k, st):
    return power(I.R(a[0], st), num(Fraction(1, 2)))


@ext("np.square")
def _square(I, n, a, k, st):
    return power(I.R(a[0], st), num(2))


@ext("np.add", "np.subtract", "np.multiply", "np.divide", "np.true_divide", "np.floor_divide", "np.mod", "np.remainder", "np.negative", "np.reciprocal")
def _arith(I, n, a, k, st):
    x = I.R(a[0], st)
    y = I.R(a[1], st) if len(a) > 1 else None
    nm = n[3:]
    if k:
        return None
    return {"add": lambda: add(x, y), "subtract": lambda: sub(x, y), "multiply": lambda: mul(x, y),
            "divide": lambda: div(x, y), "true_divide": lambda: div(x, y), "floor_divide": lambda: fdiv(x, y),
            "mod": lambda: mod(x, y), "remainder": lambda: mod(x, y), "negative": lambda: neg(x),
            "reciprocal": lambda: div(ONE, x)}[nm]()


@ext("np.matmul", "np.dot", "jax.lax.dot")
def _mm2(I, n, a, k, st):
    return matmul(tl(I, a[0], st), tl(I, a[1], st))


@ext("np.vdot", "np.inner")
def _vdot(I, n, a, k, st):
    x, y = tl(I, a[0], st), tl(I, a[1], st)
    p, q = sorted((x, y), key=lambda t: t.dig)
    return mk("vdot", p, q)


@ext("np.transpose")
def _tr(I, n, a, k, st):
    x = tl(I, a[0], st)
    ax = a[1] if len(a) > 1 else k.get("axes", NONE)
    ax = tl(I, ax, st)
    if ax is NONE:
        return transpose(x)
    return mk("call", "np.transpose", (x, ax), ())


@ext("np.reshape")
def _rs(I, n, a, k, st):
    sh = a[1] if len(a) > 1 else k.get("shape", k.get("newshape"))
    return reshape(tl(I, a[0], st), tl(I, sh, st), {x: v for x, v in k.items() if x == "order"}, I, st)


@ext("np.ravel")
def _rv(I, n, a, k, st):
    return reshape(tl(I, a[0], st), MINUS1, k, I, st)


@ext("np.where")
def _where(I, n, a, k, st):
    if len(a) == 1:
        return mk("call", "np.where1", (I.R(a[0], st),), tuple(sorted((kk, I.R(v, st)) for kk, v in k.items())))
    m = I.R(a[0], st)
    if not is_bool(m) and m.op in ("poly", "mono", "num"):
        m = not_(eq(m, ZERO))
    return where(m, tl(I, a[1], st), tl(I, a[2], st))


@ext("np.select")
def _select(I, n, a, k, st):
    cs = I.known_items(a[0], st)
    vs = I.known_items(a[1], st)
    d = I.R(k.get("default", a[2] if len(a) > 2 else ZERO), st)
    if cs is None or vs is None:
        return None
    for c, v in reversed(list(zip(cs, vs))):
        d = where(I.R(c, st), I.R(v, st), d)
    return d


@ext("np.logical_and", "np.bitwise_and", "np.logical_or", "np.bitwise_or", "np.logical_not", "np.bitwise_not", "np.invert")
def _logic(I, n, a, k, st):
    x = I.R(a[0], st)
    if "not" in n or "invert" in n:
        return binv(x)
    y = I.R(a[1], st)
    return band(x, y) if "and" in n else bor(x, y)


@ext("np.greater", "np.less", "np.greater_equal", "np.less_equal", "np.equal", "np.not_equal")
def _cmp(I, n, a, k, st):
    op = {"greater": "Gt", "less": "Lt", "greater_equal": "GtE", "less_equal": "LtE", "equal": "Eq", "not_equal": "NotEq"}[n[3:]]
    return I.compare(op, a[0], a[1], st)


@ext("np.clip")
def _clip(I, n, a, k, st):
    x = I.R(a[0], st)
    lo = I.R(k.get("a_min", k.get("min", a[1] if len(a) > 1 else NONE)), st)
    hi = I.R(k.get("a_max", k.get("max", a[2] if len(a) > 2 else NONE)), st)
    if lo is not NONE:
        x = commut("max", [x, lo])
    if hi is not NONE:
        x = commut("min", [x, hi])
    return x


def one_dim(t):
    """The array is known to have exactly one axis."""
    if t.op == "reshape":
        return t.args[1] is MINUS1 or (intval(t.args[1]) is not None)
    if t.op == "ravel":
        return True
    if t.op == "call" and t.args[0] in ("np.arange", "np.linspace", "np.concatenate0"):
        return True
    if t.op == "call" and t.args[0] in ("np.zeros", "np.ones", "np.full"):
        sh = dict(t.args[2]).get("shape")
        return sh is not None and (intval(sh) is not None or sh.op in ("len", "size", "fdiv") or (sh.op == "tuple" and len(sh.args) == 1))
    if t.op == "call" and t.args[0] == "np.concatenate":
        d = dict(t.args[2])
        arr = d.get("arrays")
        return "axis" not in d and arr is not None and arr.op in ("tuple", "list") and any(one_dim(x) for x in arr.args)
    if t.op in ("tuple", "list") and t.args:
        return all(x.op in ("num",) for x in t.args)
    return False


@ext("np.hstack", "np.vstack", "np.concatenate", "np.append")
def _concat(I, n, a, k, st):
    if n == "np.append":
        if "axis" in k or len(a) > 2:
            return None
        parts = mk("tuple", tl(I, a[0], st), tl(I, a[1], st))
        return mk("call", "np.concatenate", (), (("arrays", parts),))
    arr = tl(I, a[0] if a else k["arrays"], st)
    if n == "np.hstack":
        if arr.op in ("tuple", "list") and any(one_dim(x) for x in arr.args):
            return mk("call", "np.concatenate", (), (("arrays", arr),))
        return mk("call", "np.hstack", (arr,), ())
    ax = I.R(k.get("axis", a[1] if len(a) > 1 else ZERO), st)
    if n == "np.vstack":
        return mk("call", "np.vstack", (arr,), ())
    kw = [("arrays", arr)]
    if ax is not ZERO:
        kw.append(("axis", ax))
    return mk("call", "np.concatenate", (), tuple(sorted(kw)))


@ext("np.column_stack")
def _cs(I, n, a, k, st):
    return mk("call", "np.stack", (), tuple(sorted([("arrays", tl(I, a[0], st)), ("axis", ONE)])))


@ext("np.stack")
def _stack(I, n, a, k, st):
    arr = tl(I, a[0] if a else k["arrays"], st)
    ax = I.R(k.get("axis", a[1] if len(a) > 1 else ZERO), st)
    if ax is MINUS1 or (intval(ax) == -1):
        ax = MINUS1
    if ax is ZERO:
        # jnp.stack([...]) and jnp.array([...]) agree
        return arr if arr.op in ("tuple", "seq") else mk("call", "np.stack", (), (("arrays", arr),))
    return mk("call", "np.stack", (), tuple(sorted([("arrays", arr), ("axis", ax)])))


@ext("np.take")
def _take(I, n, a, k, st):
    x, i = tl(I, a[0], st), tl(I, a[1], st)
    ax = k.get("axis", a[2] if len(a) > 2 else NONE)
    ax = I.R(ax, st)
    rest = {q: v for q, v in k.items() if q != "axis"}
    if rest:
        return None
    if ax is ZERO:
        return idx(x, i)
    if ax is ONE:
        return idx(x, mk("tuple", FULL, i))
    return None


@ext("np.shape")
def _shape(I, n, a, k, st):
    return I.get_attr(a[0] if isinstance(a[0], T) else I.R(a[0], st), "shape", st)


@ext("np.ndim")
def _ndim(I, n, a, k, st):
    return mk("ndim", I.R(a[0], st))


@ext("np.size")
def _size(I, n, a, k, st):
    return size_(I.R(a[0], st))


@ext("np.expand_dims")
def _ed(I, n, a, k, st):
    x = tl(I, a[0], st)
    ax = intval(I.R(k.get("axis", a[1] if len(a) > 1 else ZERO), st))
    if ax is not None and 0 <= ax <= 4:
        return idx(x, mk("tuple", *([FULL] * ax + [NONE]))) if ax else idx(x, NONE)
    if ax == -1:
        return idx(x, mk("tuple", ELLIPSIS, NONE))
    return None


@ext("np.arange")
def _arange(I, n, a, k, st):
    ts = [I.R(x, st) for x in a]
    dt = dtype_norm(I.R(k.get("dtype", NONE), st)) if "dtype" in k else None
    if len(ts) == 1:
        ts = [ZERO, ts[0]]
    if len(ts) == 2:
        ts.append(ONE)
    r = mk("call", "np.arange", tuple(ts), ())
    return r if dt is None or dt is NONE else mk("astype", r, dt)


@ext("np.zeros", "np.ones", "np.empty", "np.full", "np.zeros_like", "np.ones_like", "np.full_like", "np.eye")
def _zeros(I, n, a, k, st):
    k = {q: v for q, v in k.items()}
    if "dtype" in k:
        k["dtype"] = dtype_norm(tl(I, k["dtype"], st))
    names = SIGS[n][0]
    a = list(a)
    if "dtype" in names and len(a) > names.index("dtype"):
        a[names.index("dtype")] = dtype_norm(tl(I, a[names.index("dtype")], st))
    if n == "np.full":
        # full(s, 0) == zeros(s)
        v = I.R(k.get("fill_value", a[1] if len(a) > 1 else NONE), st)
        if v is ZERO or v is ONE:
            return generic(I, "np.zeros" if v is ZERO else "np.ones", [a[0] if a else k["shape"]],
                           {q: x for q, x in k.items() if q not in ("shape", "fill_value")}, st)
    return generic(I, n, a, k, st)


@ext("np.identity")
def _identity(I, n, a, k, st):
    return generic(I, "np.eye", a, k, st)


@ext("np.sum")
def _npsum(I, n, a, k, st):
    r = generic(I, n, a, k, st)
    d = dict(r.args[2])
    x = d.get("a")
    if x is not None and x.op == "mono" and x.args[0] != 1:
        d["a"] = tm.rebuild("mono", (Fraction(1), x.args[1]))
        return tm.scale(mk("call", n, (), tuple(sorted(d.items()))), x.args[0])
    return r


@ext("np.einsum")
def _einsum(I, n, a, k, st):
    s = I.R(a[0], st)
    ops = [tl(I, x, st) for x in a[1:]]
    if s.op != "const" or any(o.op == "star" for o in ops):
        return None
    sub_ = s.args[0].replace(" ", "")
    if "." in sub_:
        return None
    if "->" in sub_:
        ins, out = sub_.split("->")
    else:
        ins = sub_
        out = "".join(sorted(c for c in set(ins.replace(",", "")) if ins.count(c) == 1))
    ins = ins.split(",")
    if len(ins) != len(ops):
        return None
    return einsum_norm(ins, out, ops)


def einsum_norm(ins, out, ops):
    coef = Fraction(1)
    new = []
    for sb, o in zip(ins, ops):
        if o.op == "mono" and o.args[0] != 1:
            coef *= o.args[0]
            o = tm.rebuild("mono", (Fraction(1), o.args[1]))
        if o.op == "transpose" and len(sb) == 2:
            sb, o = sb[::-1], o.args[0]
        new.append((sb, o))
    # canonical operand order: by digest, ties by subscript pattern; letters by first use after out
    new.sort(key=lambda p: (p[1].dig, pattern(p[0])))
    best = None
    groups = [new]
    import itertools
    # try permutations among equal operands (few)
    perms = [new]
    digs = [p[1].dig for p in new]
    if len(set(digs)) != len(digs) and len(new) <= 4:
        perms = [list(p) for p in itertools.permutations(new) if [x[1].dig for x in p] == digs]
    for p in perms:
        m = {}
        for c in out + "".join(x[0] for x in p):
            if c not in m:
                m[c] = chr(97 + len(m))
        lab = ",".join("".join(m[c] for c in x[0]) for x in p) + "->" + "".join(m[c] for c in out)
        if best is None or lab < best[0]:
            best = (lab, tuple(x[1] for x in p))
    r = mk("einsum", best[0], *best[1])
    return tm.scale(r, coef) if coef != 1 else r


def pattern(s):
    m = {}
    return "".join(chr(97 + m.setdefault(c, len(m))) for c in s)


def _rb_einsum(lab, *ops):
    i, o = lab.split("->")
    return einsum_norm(i.split(","), o, ops)


tm.REBUILD["einsum"] = _rb_einsum


@ext("np.linalg.norm")
def _norm(I, n, a, k, st):
    r = generic(I, n, a, k, st)
    return call_(*r.args)


@ext("np.isfinite", "np.isnan", "np.sign", "np.exp", "np.log", "np.tanh", "np.sin", "np.cos", "np.tan", "np.arctan2", "np.floor", "np.ceil")
def _ufunc(I, n, a, k, st):
    return None


@ext("math.exp", "math.log", "math.sin", "math.cos", "math.tan", "math.floor", "math.ceil", "math.atan2", "math.pi", "math.prod")
def _math(I, n, a, k, st):
    return generic(I, "np." + {"atan2": "arctan2"}.get(n[5:], n[5:]), a, k, st)


# ------------------------------------------------------------------ jax transforms
def callable_arity(I, f):
    if isinstance(f, FuncV):
        return len([p for p in I.fn_params(f) if p[2] == "pos" and p[1] is None])
    if isinstance(f, BoundV) and isinstance(f.f, FuncV):
        return callable_arity(I, f.f) - 1
    if isinstance(f, PyF):
        return f.nargs
    return 1


def sandbox(I, st, fn):
    """Evaluate fn(child) purely (effects and writes are attached to the term)."""
    return I.run_closed(fn, st)


@ext("jax.vmap", "equinox.filter_vmap")
def _vmap(I, n, a, k, st):
    if not a:
        kw = dict(k)
        return PyF(lambda I_, s, b, kk: _vmap(I_, n, b, kw, s), 1, label="deco")
    f = a[0]
    in_axes = k.get("in_axes", a[1] if len(a) > 1 else ZERO)
    out_axes = k.get("out_axes", a[2] if len(a) > 2 else ZERO)
    ia = in_axes

    def run(I_, s, args, kw):
        return do_vmap(I_, s, f, ia, out_axes, args, kw)
    return PyF(run, callable_arity(I, f), label="vmap")


def axis_leaves(I, ax, v, st):
    """Replace the mapped parts of v by fresh element variables.

    returns (element value, [(fv, source term, axis term)])"""
    ax = I.resolve(st, ax)
    v = I.resolve(st, v)
    if isinstance(ax, T) and ax is NONE:
        return v, []
    items = I.known_items(v, st) if not (isinstance(v, T) and v.op == "const") else None
    axi = I.known_items(ax, st) if not isinstance(ax, T) or ax.op in ("tuple", "list") else None
    if axi is not None and items is not None and len(axi) == len(items):
        out, maps = [], []
        for p, q in zip(axi, items):
            e, m = axis_leaves(I, p, q, st)
            out.append(e)
            maps += m
        return TupV(out), maps
    if items is not None and (isinstance(v, (TupV, RefV)) or (isinstance(v, T) and v.op in ("tuple", "list"))) and axi is None:
        # a tuple of arrays is a pytree: each leaf is mapped
        if isinstance(v, (TupV,)) or (isinstance(v, RefV) and v.kind == "list"):
            out, maps = [], []
            for q in items:
                e, m = axis_leaves(I, ax, q, st)
                out.append(e)
                maps += m
            return TupV(out), maps
    t = I.R(v, st)
    at = tl(I, ax, st)
    fv = fresh()
    ty = I.typ(t)
    if isinstance(ty, ClassV):
        I.types[fv.dig] = ty
    return fv, [(fv, t, at)]


def do_vmap(I, st, f, in_axes, out_axes, args, kw):
    if any(isinstance(x, T) and x.op == "star" for x in args):
        # unknown pytrees as one mapped argument
        xs = []
        maps = []
        iax = tl(I, in_axes, st)
        for x in args:
            if isinstance(x, T) and x.op == "star":
                fv = fresh()
                maps.append((fv, x.args[0], iax))
                xs.append(mk("star", fv))
            else:
                e, m = axis_leaves(I, in_axes if intval(iax) is not None else ZERO, x, st)
                xs.append(e)
                maps += m
    else:
        axs = I.known_items(in_axes, st) if not isinstance(in_axes, T) or in_axes.op in ("tuple", "list") else None
        xs, maps = [], []
        if axs is not None and len(axs) == len(args):
            for p, q in zip(axs, args):
                e, m = axis_leaves(I, p, q, st)
                xs.append(e)
                maps += m
        elif isinstance(in_axes, T) and in_axes.op not in ("num",) and in_axes is not NONE:
            for j, q in enumerate(args):
                t = I.R(q, st)
                fv = fresh()
                maps.append((fv, t, idx(in_axes, num(j))))
                xs.append(fv)
        else:
            for q in args:
                e, m = axis_leaves(I, in_axes, q, st)
                xs.append(e)
                maps += m
    kws = {}
    for kk, v in kw.items():
        e, m = axis_leaves(I, ZERO, v, st)
        kws[kk] = e
        maps += m
    child = st.fork()
    base = I.n
    anc = child.top.parent
    child.set(ip.EFF, ())
    r = I.call(f, xs, kws, child)
    eff = I.segs_term(child.get(ip.EFF), child)
    if not (eff.op == "list" and not eff.args):
        I.effect(st, close_vmap(maps, eff, ZERO, keep=True))
    oa = I.resolve(st, out_axes)

    def close(v, oax):
        v = I.resolve(child, v)
        items = None
        if isinstance(v, TupV) or (isinstance(v, RefV) and v.kind == "list"):
            items = I.known_items(v, child)
        if items is not None:
            oi = I.known_items(oax, st) if not isinstance(oax, T) or oax.op in ("tuple", "list") else None
            if oi is not None and len(oi) == len(items):
                return TupV([close(x, o) for x, o in zip(items, oi)])
            return TupV([close(x, oax) for x in items])
        t = I.R(v, child)
        return close_vmap(maps, t, tl(I, oax, st))
    return close(r, oa)


def close_vmap(maps, t, oax, keep=False):
    used = []
    m = {}
    by = {}
    for fv, src, ax in maps:
        key = (src.dig, ax.dig)
        if key in by:
            m[fv.args[0]] = by[key][0]
        else:
            by[key] = (fv, src, ax)
    if m:
        t = tm.subst(t, m)
    ents = sorted(by.values(), key=lambda e: (e[1].dig, e[2].dig))
    used = [e for e in ents if e[0].args[0] in t.fv]
    if not used and not keep:
        used = ents[:1]
    return vmap_term(oax, tuple(e[2] for e in used), tuple(e[1] for e in used), lam([e[0] for e in used], t))


def vmap_term(oax, axes, srcs, l):
    key = [(s.dig, a.dig) for s, a in zip(srcs, axes)]
    if key != sorted(key) or len(set(key)) != len(key):
        first, order = {}, []
        for j in sorted(range(len(key)), key=lambda j: key[j]):
            if key[j] not in first:
                first[key[j]] = j
                order.append(j)
        fs = [fresh() for _ in srcs]
        body = tm.apply_lam(l, [fs[first[key[j]]] for j in range(len(key))])
        axes, srcs, l = tuple(axes[j] for j in order), tuple(srcs[j] for j in order), lam([fs[j] for j in order], body)
    # vmap(x -> x)(a) == a
    n, h, b = l.args
    if n == 1 and b.op == "bv" and b.args[0] == h and oax is ZERO and axes[0] is ZERO:
        return srcs[0]
    # vmap(x -> a[x])(ix) == a[ix]
    if n == 1 and oax is ZERO and axes[0] is ZERO and b.op == "idx" and b.args[1].op == "bv" and b.args[1].args[0] == h \
            and not tm.contains(b.args[0], lambda q: q.op == "bv" and q.args[0] == h):
        return idx(b.args[0], srcs[0])
    return mk("vmap", oax, axes, srcs, l)


tm.REBUILD["vmap"] = vmap_term


def diff_target(I, f, args, kw, argnums, st):
    """lam over the differentiated argument(s), others substituted."""
    nums = [argnums] if isinstance(argnums, int) else list(argnums)
    fvs = {}
    xs = list(args)
    flat = []
    for j in nums:
        e, leaves = fresh_like(I, xs[j], st)
        xs[j] = e
        flat += leaves
    box = {}

    def thunk(child):
        r = I.call(f, xs, dict(kw), child)
        return r
    body = I.run_closed(thunk, st)
    return lam([fv for fv, _ in flat], body), [src for _, src in flat]


def fresh_like(I, v, st):
    v = I.resolve(st, v)
    if isinstance(v, TupV):
        out, lv = [], []
        for x in v.items:
            e, l = fresh_like(I, x, st)
            out.append(e)
            lv += l
        return TupV(out), lv
    t = I.R(v, st)
    fv = fresh()
    ty = I.typ(t)
    if ty is not None:
        I.types[fv.dig] = ty
    return fv, [(fv, t)]


def argnums_of(I, k, a, st, pos=1):
    v = k.get("argnums", a[pos] if len(a) > pos else ZERO)
    v = I.resolve(st, v)
    t = I.R(v, st)
    if intval(t) is not None:
        return intval(t)
    if t.op == "tuple":
        return tuple(intval(x) for x in t.args)
    return 0


def mk_diff(op, multi=False):
    def h(I, n, a, k, st):
        if not a:
            kw0 = dict(k)
            return PyF(lambda I_, s, b, kk: h(I_, n, b, kw0, s), 1, label="deco")
        f = a[0]
        an = argnums_of(I, k, a, st)
        aux = "has_aux" in k and I.R(k["has_aux"], st) is TRUE

        def run(I_, s, args, kw):
            if any(isinstance(x, T) and x.op == "star" for x in args):
                ft = I_.R(f, s)
                return mk(op, ft, *[I_.R(x, s) for x in args])
            l, srcs = diff_target(I_, f, args, kw, an, s)
            nums = (an,) if isinstance(an, int) else an
            if aux:
                l = mk("fst", l)
            r = mk(op, l, *srcs)
            if not isinstance(an, int):
                r = TupV([idx(r, num(j)) for j in range(len(nums))])
            if op == "value_and_grad":
                raise Undecided("vag")
            return r
        return PyF(run, callable_arity(I, f), label=op)
    return h


EXT["jax.grad"] = mk_diff("grad")
EXT["jax.jacfwd"] = mk_diff("jac")
EXT["jax.jacrev"] = mk_diff("jac")
EXT["jax.jacobian"] = mk_diff("jac")
EXT["jax.hessian"] = mk_diff("hess")


@ext("jax.value_and_grad")
def _vag(I, n, a, k, st):
    if not a:
        kw0 = dict(k)
        return PyF(lambda I_, s, b, kk: _vag(I_, n, b, kw0, s), 1)
    f = a[0]
    an = argnums_of(I, k, a, st)

    def run(I_, s, args, kw):
        val = I_.call(f, args, kw, s)
        l, srcs = diff_target(I_, f, args, kw, an, s)
        g = mk("grad", l, *srcs)
        if not isinstance(an, int):
            g = TupV([idx(g, num(j)) for j in range(len(an))])
        return TupV([val, g])
    return PyF(run, callable_arity(I, f), label="vag")


@ext("jax.jvp")
def _jvp(I, n, a, k, st):
    f, prim, tang = a
    p = I.known_items(prim, st)
    t = I.known_items(tang, st)
    if p is None:
        return generic(I, n, [I.R(f, st), prim, tang], k, st)
    val = I.call(f, list(p), {}, st.fork())
    l, srcs = diff_target(I, f, list(p), {}, tuple(range(len(p))), st)
    tt = I.R(TupV(t), st) if t is not None else I.R(tang, st)
    return TupV([val, mk("jvp", l, mk("tuple", *srcs), flatten_t(tt))])


def flatten_t(t):
    if t.op == "tuple":
        out = []
        for x in t.args:
            y = flatten_t(x)
            if y.op == "tuple":
                out += y.args
            else:
                out.append(y)
        return mk("tuple", *out)
    return t


@ext("jax.linearize")
def _linz(I, n, a, k, st):
    f, prim = a[0], a[1:]
    val = I.call(f, list(prim), {}, st.fork())
    l, srcs = diff_target(I, f, list(prim), {}, tuple(range(len(prim))), st)
    s_ = mk("tuple", *srcs)
    return TupV([val, PyF(lambda I_, s, b, kk: mk("jvp", l, s_, flatten_t(mk("tuple", *[I_.R(x, s) for x in b]))), len(prim), label="lin")])


@ext("jax.vjp")
def _vjp(I, n, a, k, st):
    f, prim = a[0], a[1:]
    val = I.call(f, list(prim), {}, st.fork())
    if "has_aux" in k and I.R(k["has_aux"], st) is TRUE:
        raise Undecided("vjp aux")
    l, srcs = diff_target(I, f, list(prim), {}, tuple(range(len(prim))), st)
    s_ = mk("tuple", *srcs)
    shapes = [I.resolve(st, p) for p in prim]

    def pull(I_, s, b, kk):
        t = mk("vjp", l, s_, I_.R(b[0], s))
        out, c = [], 0
        for p in shapes:
            if isinstance(p, TupV):
                out.append(TupV([idx(t, num(c + j)) for j in range(len(p.items))]))
                c += len(p.items)
            else:
                out.append(idx(t, num(c)))
                c += 1
        return TupV(out)
    return TupV([val, PyF(pull, 1, label="vjp")])


@ext("jax.linear_transpose")
def _lint(I, n, a, k, st):
    f, prim = a[0], a[1:]
    l, srcs = diff_target(I, f, list(prim), {}, tuple(range(len(prim))), st)
    return PyF(lambda I_, s, b, kk: TupV([idx(mk("lintr", l, I_.R(b[0], s)), num(j)) for j in range(len(prim))]), 1, label="lt")


@ext("jax.custom_vjp", "jax.custom_jvp")
def _custom(I, n, a, k, st):
    if not a:
        kw0 = dict(k)
        return PyF(lambda I_, s, b, kk: _custom(I_, n, b, kw0, s), 1, label="deco")
    i = I.nid()
    nd = k.get("nondiff_argnums", TupV(()))
    st.set(("C", i), (a[0], I.R(nd, st)))
    return RefV(i, "custom")


@ext("jax.custom_batching.custom_vmap")
def _cvmap(I, n, a, k, st):
    i = I.nid()
    st.set(("C", i), (a[0], const("vmap")))
    return RefV(i, "custom")


@ext("time.perf_counter", "time.time", "time.monotonic", "time.process_time", "time.perf_counter_ns")
def _clock(I, n, a, k, st):
    """The k-th reading of the clock on the path."""
    j = st.get(("TRY", "clock"))
    j = ZERO if j is ip.MISSING else j
    st.set(("TRY", "clock"), tm.add(j, tm.ONE))
    return mk("call", "pure:clock", (j,), ())


def call_custom(I, ref, args, kwargs, st):
    c = st.get(("C", ref.id))
    fn, nd = c[0], c[1]
    rest = c[2:]
    if nd.op == "const" and nd.args[0] == "vmap":
        r = I.call(fn, args, kwargs, st)
        if not rest:
            return r
        return mk("cvmap", I.R(r, st), I.R(rest[0], st))
    active = I.__dict__.setdefault("in_fwd", [])
    if len(rest) < 2 or ref.id in active:
        return I.call(fn, args, kwargs, st)
    fwd, bwd = rest[0], rest[1]
    # full positional argument list
    base = fn.f if isinstance(fn, BoundV) else fn
    if isinstance(base, FuncV):
        b = I.bind(base, args, kwargs, st)
        args = [b[p[0]] for p in I.fn_params(base) if p[2] == "pos"]
        kwargs = {}
    prim = I.call(fn, args, kwargs, st)
    nds = [intval(x) for x in nd.args] if nd.op == "tuple" else []
    child = st.fork()
    active.append(ref.id)
    try:
        fw = I.call(fwd, list(args), {}, child)
    finally:
        active.pop()
    out, res = I.unpack(fw, 2, child)
    struct = I.resolve(child, out)

    def ct_like(v):
        v = I.resolve(child, v)
        if isinstance(v, TupV):
            o, l = [], []
            for x in v.items:
                e, q = ct_like(x)
                o.append(e)
                l += q
            return TupV(o), l
        f = fresh()
        if isinstance(v, T) and isinstance(I.typ(v), ClassV):
            I.types[f.dig] = I.typ(v)
        if isinstance(v, RefV) and v.kind == "obj":
            I.types[f.dig] = v.cls
        return f, [f]
    ct, fl = ct_like(struct)
    ndargs = [args[j] for j in nds if j < len(args)]
    inner = child.fork()
    inner.set(ip.EFF, ())
    g = I.call(bwd, ndargs + [res, ct], {}, inner)
    gl = lam(fl, I.close_result(g, inner, child))

    def wrap(v, path):
        v = I.resolve(st, v)
        if isinstance(v, TupV):
            return TupV([wrap(x, path + (j,)) for j, x in enumerate(v.items)])
        t = I.R(v, st) if not isinstance(v, RefV) else I.R(v, child)
        r = mk("cvjp", t, gl, str(path))
        ty = I.typ(t) or (v.cls if isinstance(v, RefV) and v.kind == "obj" else None)
        if ty is not None:
            I.types.setdefault(r.dig, ty)
        return r
    pt = I.R(prim, child)
    ot = I.R(out, child)
    r = wrap(prim, ())
    if pt is not ot:
        I.effect(st, mk("fwd_differs", pt, ot))
    return r


def reify_custom(I, ref, st):
    c = st.get(("C", ref.id))
    fn = c[0]
    n = callable_arity(I, fn)
    base = fn.f if isinstance(fn, BoundV) else fn
    if isinstance(base, FuncV):
        n = len([p for p in I.fn_params(base) if p[2] == "pos"])
    fs = [fresh() for _ in range(n)]
    child = st.fork()
    child.set(ip.EFF, ())
    r = call_custom(I, ref, list(fs), {}, child)
    return lam(fs, I.close_result(r, child, st))


@ext("jax.pure_callback", "jax.experimental.io_callback")
def _pcb(I, n, a, k, st):
    f, sh = a[0], a[1]
    rest = a[2:]
    kw = {q: v for q, v in k.items() if q not in ("vmap_method", "vectorized")}
    vm = [mk("kw", q, I.R(v, st)) for q, v in sorted(k.items()) if q in ("vmap_method", "vectorized")]
    body = I.run_closed(lambda c: I.call(f, list(rest), kw, c), st)
    return mk("callback", tl(I, sh, st), body, *vm)


def struct_fv(I, v, st):
    """(structure of fresh vars, leaves [(fv, init T)])"""
    v = I.resolve(st, v)
    if isinstance(v, TupV):
        out, lv = [], []
        for x in v.items:
            e, l = struct_fv(I, x, st)
            out.append(e)
            lv += l
        return TupV(out), lv
    if isinstance(v, RefV) and v.kind == "obj":
        f = {}
        lv = []
        o = I.nid()
        r = RefV(o, "obj", v.cls)
        st.set(("OF", o), ())
        for nme, x in I.obj_fields(v, st).items():
            e, l = struct_fv(I, x, st)
            I.set_attr(r, nme, e, st)
            lv += l
        return r, lv
    if isinstance(v, RefV) and v.kind == "dict" and isinstance(st.get(("D", v.id)), dict):
        prs, lv = [], []
        for kk, x in st.get(("D", v.id)).values():
            e, l = struct_fv(I, x, st)
            prs.append((kk, e))
            lv += l
        return I.new_dict(st, prs), lv
    t = I.R(v, st)
    fv = fresh()
    ty = I.typ(t)
    if ty is not None:
        I.types[fv.dig] = ty
    return fv, [(fv, t)]


def flatten_like(I, struct, v, st):
    """Leaves of v following struct."""
    v = I.resolve(st, v)
    struct_r = struct
    if isinstance(struct_r, TupV):
        items = I.known_items(v, st)
        if items is None or len(items) != len(struct_r.items):
            items = [I.subscript(v, num(j), st) for j in range(len(struct_r.items))]
        out = []
        for s, x in zip(struct_r.items, items):
            out += flatten_like(I, s, x, st)
        return out
    if isinstance(struct_r, RefV) and struct_r.kind == "obj":
        out = []
        for nme in st.get(("OF", struct_r.id)):
            out += flatten_like(I, st.get(("O", struct_r.id, nme)), I.get_attr(v, nme, st), st)
        return out
    if isinstance(struct_r, RefV) and struct_r.kind == "dict":
        out = []
        for kk, s in st.get(("D", struct_r.id)).values():
            out += flatten_like(I, s, I.subscript(v, kk, st), st)
        return out
    return [I.R(v, st)]


def unflatten_like(I, struct, leaves, st):
    if isinstance(struct, TupV):
        return TupV([unflatten_like(I, s, leaves, st) for s in struct.items])
    if isinstance(struct, RefV) and struct.kind == "obj":
        o = I.nid()
        r = RefV(o, "obj", struct.cls)
        st.set(("OF", o), ())
        for nme in st.get(("OF", struct.id)):
            I.set_attr(r, nme, unflatten_like(I, st.get(("O", struct.id, nme)), leaves, st), st)
        return r
    if isinstance(struct, RefV) and struct.kind == "dict":
        return I.new_dict(st, [(kk, unflatten_like(I, s, leaves, st)) for kk, s in st.get(("D", struct.id)).values()])
    return leaves.pop(0)


def loop_solve(I, st, lv, nexts, n, i, header, child):
    """Close a recurrence over leaves; returns final value of each leaf."""
    leaves = []
    fvs = {}
    for (fv, init), nx in zip(lv, nexts):
        l = (("X", fv.args[0]), (), init, fv, nx)
        leaves.append(l)
        fvs[fv.args[0]] = l
    out = [I.close_leaf(l, fvs, n, i, FALSE, header) for l in leaves]
    return out, fvs


@ext("jax.lax.while_loop", "equinox.internal.while_loop")
def _while(I, n, a, k, st):
    cond = a[0] if a else k["cond_fun"]
    body = a[1] if len(a) > 1 else k["body_fun"]
    init = a[2] if len(a) > 2 else k["init_val"]
    child = st.fork()
    child.set(ip.EFF, ())
    struct, lv = struct_fv(I, init, child)
    c = I.truth(I.call(cond, [struct], {}, child), child)
    nx = flatten_like(I, struct, I.call(body, [struct], {}, child), child)
    out, fvs = loop_solve(I, child, lv, nx, None, None, c, child)
    return unflatten_like(I, struct, list(out), _adopt_struct(I, struct, child, st))


def _adopt_struct(I, struct, child, st):
    # copy structure cells needed to rebuild
    def go(s):
        if isinstance(s, TupV):
            for x in s.items:
                go(x)
        elif isinstance(s, RefV) and s.kind == "obj":
            of = child.get(("OF", s.id))
            st.set(("OF", s.id), of)
            for nme in of:
                v = child.get(("O", s.id, nme))
                st.set(("O", s.id, nme), v)
                go(v)
        elif isinstance(s, RefV) and s.kind == "dict":
            d = child.get(("D", s.id))
            st.set(("D", s.id), d)
            for kk, v in d.values():
                go(v)
    go(struct)
    return st


@ext("jax.lax.fori_loop")
def _fori(I, n, a, k, st):
    lo, hi, body, init = [I.R(a[0], st), I.R(a[1], st)] + list(a[2:4])
    child = st.fork()
    child.set(ip.EFF, ())
    struct, lv = struct_fv(I, init, child)
    i = I.loop_index()
    nx = flatten_like(I, struct, I.call(body, [add(i, lo), struct], {}, child), child)
    out, fvs = loop_solve(I, child, lv, nx, sub(hi, lo), i, None, child)
    return unflatten_like(I, struct, list(out), _adopt_struct(I, struct, child, st))


@ext("jax.lax.scan")
def _scan(I, n, a, k, st):
    f, init = a[0], a[1] if len(a) > 1 else k["init"]
    xs = a[2] if len(a) > 2 else k.get("xs", NONE)
    length = k.get("length", a[3] if len(a) > 3 else NONE)
    child = st.fork()
    child.set(ip.EFF, ())
    struct, lv = struct_fv(I, init, child)
    i = I.loop_index()
    xs = I.resolve(st, xs)
    rev = "reverse" in k and I.R(k["reverse"], st) is not FALSE
    lens = []

    def elem(v):
        v = I.resolve(child, v)
        if isinstance(v, TupV):
            return TupV([elem(x) for x in v.items])
        if isinstance(v, T) and v is NONE:
            return NONE
        t = I.R(v, child)
        lens.append(len_(t))
        if t.op == "call" and t.args[0] == "np.arange" and t.args[1][0] is ZERO and t.args[1][2] is ONE:
            lens[-1] = t.args[1][1]
            return i
        return idx(t, i)
    x = elem(xs)
    if not lens:
        nn = I.R(length, st)
    else:
        nn = lens[0] if len(lens) == 1 else mk("minlen", *sorted(set(lens), key=lambda q: q.dig))
    if rev:
        nn = mk("revlen", nn)
    r = I.call(f, [struct, x], {}, child)
    c2, y = I.unpack(r, 2, child)
    nx = flatten_like(I, struct, c2, child)
    out, fvs = loop_solve(I, child, lv, nx, nn, i, None, child)
    final = unflatten_like(I, struct, list(out), _adopt_struct(I, struct, child, st))

    def ys(v):
        v = I.resolve(child, v)
        if isinstance(v, TupV):
            return TupV([ys(x) for x in v.items])
        t = I.R(v, child)
        if t is NONE:
            return NONE
        if not (t.fv & frozenset(fvs)):
            return I.mk_seq(nn, i, t)
        return I.close_value(("ys",), t, fvs, nn, i, FALSE, None)
    return TupV([final, ys(y)])


@ext("jax.lax.map")
def _lmap(I, n, a, k, st):
    return do_vmap(I, st, a[0], ZERO, ZERO, [a[1]], {})


@ext("jax.lax.cond")
def _cond(I, n, a, k, st):
    c = I.truth(a[0], st)
    args = list(a[3:])
    if "operand" in k:
        args = [k["operand"]]
    return I.branch(c, st, lambda s: I.call(a[1], args, {}, s), lambda s: I.call(a[2], args, {}, s))


@ext("jax.lax.switch")
def _switch(I, n, a, k, st):
    fs = I.known_items(a[1], st)
    if fs is None:
        return None
    i = I.R(a[0], st)
    v = I.call(fs[-1], list(a[2:]), {}, st)
    for j in range(len(fs) - 2, -1, -1):
        x = I.call(fs[j], list(a[2:]), {}, st)
        v = I.merge_val(eq(i, num(j)), x, v, st, st, st)
    return v


@ext("jax.lax.select")
def _lselect(I, n, a, k, st):
    return where(I.R(a[0], st), I.R(a[1], st), I.R(a[2], st))


@ext("jax.tree.map")
def _tmap(I, n, a, k, st):
    f, trees = a[0], a[1:]
    leaf = () if k.get("is_leaf", NONE) is NONE else (mk("is_leaf", I.R(k["is_leaf"], st)),)

    def go(vs):
        vs = [I.resolve(st, v) for v in vs]
        v = vs[0]
        if isinstance(v, T) and v is NONE:
            return NONE
        if leaf:
            return mk("treemap", I.R(f, st), *([I.R(x, st) for x in vs] + list(leaf)))
        if isinstance(v, TupV) or (isinstance(v, RefV) and v.kind == "list" and I.known_items(v, st) is not None):
            items = [I.known_items(x, st) for x in vs]
            if all(x is not None for x in items):
                return TupV([go(list(z)) for z in zip(*items)])
        if isinstance(v, RefV) and v.kind == "dict" and isinstance(st.get(("D", v.id)), dict):
            return I.new_dict(st, [(kk, go([I.subscript(x, kk, st) for x in vs])) for kk, _ in st.get(("D", v.id)).values()])
        if isinstance(v, RefV) and v.kind == "obj":
            return mk("treemap", I.R(f, st), *[I.R(x, st) for x in vs])
        if isinstance(v, T) and v.op in ("poly", "mono", "matmul", "scatter", "set", "where"):
            return I.call(f, vs, {}, st)
        fs = [fresh() for _ in vs]
        b = I.run_closed(lambda c: I.call(f, list(fs), {}, c), st)
        ts = [I.R(x, st) for x in vs]
        if len(fs) == 1 and b is fs[0]:
            return ts[0]
        return mk("treemap", lam(fs, b), *ts)
    return go(list(trees))


@ext("jax.tree.leaves", "jax.tree.flatten", "jax.tree.structure", "jax.tree.unflatten")
def _tleaves(I, n, a, k, st):
    if n.endswith("leaves"):
        v = I.resolve(st, a[0])
        if isinstance(v, TupV) and all(isinstance(x, T) and x.op in ("poly", "num", "mono") for x in v.items):
            return v
        return mk("treeleaves", I.R(v, st))
    if n.endswith("unflatten"):
        td, lv = I.R(a[0], st), I.R(a[1], st)
        if td.op == "treedef" and lv.op == "treeleaves" and lv.args[0] is td.args[0]:
            return td.args[0]
        return mk("treeunflatten", td, lv)
    t = I.R(a[0], st)
    if n.endswith("structure"):
        return mk("treedef", t)
    return TupV([mk("treeleaves", t), mk("treedef", t)])


@ext("jax.flatten_util.ravel_pytree")
def _ravel(I, n, a, k, st):
    t = tl(I, a[0], st)
    return TupV([mk("ravel", t), PyF(lambda I_, s, b, kk: unravel(t, I_.R(b[0], s)), 1, label="unravel",
                                     term=None)])


def unravel(t, x):
    if x.op == "ravel" and x.args[0] is t:
        return t
    return mk("unravel", t, x)


@ext("jax.tree_util.register_pytree_node", "jax.tree_util.register_dataclass", "jax.tree.register_pytree_node")
def _reg(I, n, a, k, st):
    try:
        I.registered = getattr(I, "registered", {})
        key = a[0].name if isinstance(a[0], ClassV) else str(a[0])
        I.registered[key] = (n, a, k)
    except Exception:
        pass
    if I.in_module_body:
        I.effect(st, mk("register", n, tuple(tl(I, x, st) for x in a), tuple((q, tl(I, v, st)) for q, v in sorted(k.items()))))
    return a[0] if a else NONE


@ext("jax.tree_util.register_pytree_node_class")
def _regc(I, n, a, k, st):
    return a[0]


@ext("dataclasses.dataclass")
def _dc(I, n, a, k, st):
    if a:
        return a[0]
    return PyF(lambda I_, s, b, kk: b[0], 1, label="deco")


@ext("dataclasses.field")
def _field(I, n, a, k, st):
    if "default" in k:
        return k["default"]
    if "default_factory" in k:
        return I.call(k["default_factory"], [], {}, st)
    return mk("call", "pure:field", (), ())


@ext("dataclasses.asdict")
def _asdict(I, n, a, k, st):
    v = I.resolve(st, a[0])
    if isinstance(v, RefV) and v.kind == "obj":
        return I.new_dict(st, [(const(f), x) for f, x in I.obj_fields(v, st).items()])
    return None


@ext("np.add.at")
def _addat(I, n, a, k, st):
    return mk("call", "np.add.at", tuple(tl(I, x, st) for x in a), ())


@ext("itertools.product")
def _product(I, n, a, k, st):
    import itertools
    rep = intval(I.R(k["repeat"], st)) if "repeat" in k else 1
    its = [I.known_items(x, st) for x in a]
    if any(i is None for i in its) or rep is None:
        return None
    its = its * rep
    tot = 1
    for i in its:
        tot *= len(i)
    if tot > 256:
        return None
    return SeqV([TupV(list(x)) for x in itertools.product(*its)])


@ext("itertools.combinations")
def _comb(I, n, a, k, st):
    import itertools
    items = I.known_items(a[0], st)
    r = intval(I.R(a[1], st))
    if items is None or r is None:
        return None
    return SeqV([TupV(list(x)) for x in itertools.combinations(items, r)])


@ext("itertools.chain")
def _chain(I, n, a, k, st):
    segs = ()
    for x in a:
        segs += tuple(I.as_segs(x, st))
    return I.new_list(st, segs)


@ext("itertools.accumulate")
def _accum(I, n, a, k, st):
    return None


@ext("jax.lax.stop_gradient")
def _sg(I, n, a, k, st):
    v = I.resolve(st, a[0])
    if isinstance(v, TupV):
        return TupV([_sg(I, n, [x], k, st) for x in v.items])
    return mk("stopgrad", I.R(v, st))


@ext("operator.add", "operator.mul", "operator.sub")
def _oper(I, n, a, k, st):
    return I.binop({"add": "Add", "mul": "Mult", "sub": "Sub"}[n.split(".")[1]], a[0], a[1], st)


@ext("functools.reduce")
def _reduce(I, n, a, k, st):
    items = I.known_items(a[1], st)
    if items is None:
        return None
    it = list(items)
    v = a[2] if len(a) > 2 else it.pop(0)
    for x in it:
        v = I.call(a[0], [v, x], {}, st)
    return v
