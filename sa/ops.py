"""Normalising constructors for container / array terms."""
from __future__ import annotations
from fractions import Fraction
from .terms import ZERO
from .terms import *
from .terms import mk, T
from . import terms as tm

FULL = mk("slice", NONE, NONE, NONE)
EMPTY = mk("list")
LOOPIDX = set()


def is_scalar_index(i):
    return i.op == "num" or (i.op == "fv" and i.args[0] in LOOPIDX)


def slice_(a, b, c):
    if a is ZERO:
        a = NONE
    if c is ONE:
        c = NONE
    return mk("slice", a, b, c)


def truth_(x):
    if x.op in ("list", "tuple"):
        return tm.TRUE if x.args else tm.FALSE
    if x is tm.NONE or x is ZERO:
        return tm.FALSE
    return mk("truth", x)


def len_(x):
    if x.op == "astype" and x.args[0].op in ("tuple", "list"):
        x = x.args[0]
    if x.op in ("tuple", "list"):
        return num(len(x.args))
    if x.op == "cat":
        r = ZERO
        for p in x.args:
            r = add(r, len_(p))
        return r
    if x.op == "ite" and any(y.op in ("tuple", "list", "cat", "ite") for y in x.args[1:]):
        return ite(x.args[0], len_(x.args[1]), len_(x.args[2]))
    if x.op in ("set", "scatter") and x.op == "scatter":
        return len_(x.args[1])
    if x.op == "set":
        return len_(x.args[0])
    if x.op == "const" and isinstance(x.args[0], str):
        return num(len(x.args[0]))
    if x.op == "dict":
        return num(len(x.args[0]))
    if x.op == "shape":
        return mk("ndim", x.args[0])
    if x.op == "seq":
        n = x.args[0]
        if n is not ALL:
            return n
        bs = bases(x.args[1])
        if len(bs) == 1:
            return len_(bs[0])
    return mk("len", x)


ALL = const("ALL")


def bases(l):
    """What a loop body indexes by the loop variable (the things it runs over)."""
    n, h, b = l.args
    out = {}
    for t in subterms(b).values():
        if t.op == "idx":
            i = t.args[1]
            if i.op == "tuple" and i.args:
                i = i.args[0]
            if i.op == "bv" and i.args == (h, 0) and not any(y.op == "bv" and y.args[0] == h for y in subterms(t.args[0]).values()):
                out[t.args[0].dig] = t.args[0]
    return list(out.values())


def seq_term(n, l):
    if n is ZERO:
        return mk("list")
    return mk("seq", n, l)


def flat_term(n, l):
    b = l.args[2]
    if n is ZERO or (b.op == "list" and not b.args):
        return mk("list")
    if b.op == "list" and len(b.args) == 1:
        return tm.rebuild("seq", (n, tm.rebuild("lam", (l.args[0], l.args[1], b.args[0]))))
    return mk("flat", n, l)


NOTHING = mk("nothing")


def list_term(*a):
    return mk("list", *[x for x in a if not (x is NOTHING or (x.op == "raise_if" and x.args[0] is FALSE))])


REBUILD["seq"] = seq_term
REBUILD["flat"] = flat_term
REBUILD["list"] = list_term


def idx(x, i):
    if x.op == "ite" and i.op in ("num", "const", "slice"):
        if any(y.op in ("tuple", "list", "dict", "ite", "shape") for y in x.args[1:]):
            return ite(x.args[0], idx(x.args[1], i), idx(x.args[2], i))
    if i.op == "tuple":
        es = list(i.args)
        while es and (es[-1] is FULL):
            es.pop()
        if es and es[-1] is ELLIPSIS and sum(1 for e in es if e is ELLIPSIS) == 1:
            es.pop()
        if not es:
            return x
        if len(es) == 1:
            return idx(x, es[0])
        if is_scalar_index(es[0]):
            return idx(idx(x, es[0]), mk("tuple", *es[1:]))
        if len(es) != len(i.args):
            i = mk("tuple", *es)
    if i is FULL or i is ELLIPSIS:
        return x
    k = intval(i)
    if x.op in ("tuple", "list"):
        if k is not None and -len(x.args) <= k < len(x.args):
            return x.args[k]
        if i.op == "slice":
            vs = [None if a is NONE else intval(a) for a in i.args]
            if all(a is NONE or intval(a) is not None for a in i.args):
                return mk(x.op, *x.args[slice(*vs)])
    if x.op == "dict":
        for kk, v in x.args[0]:
            if kk is i:
                return v
    if x.op == "seq" and ((k is not None and k >= 0) or is_scalar_index(i)):
        return apply_lam(x.args[1], [i])
    if x.op == "seq" and i.op == "slice" and x.args[0] is ALL:
        b = bases(x.args[1])
        if len(b) == 1 and only_as_index(x.args[1], b[0]):
            return sliced(x.args[1], b[0], i)
    if x.op == "set":
        if x.args[1] is i:
            return x.args[2]
        if k is not None and intval(x.args[1]) is not None and k >= 0 and intval(x.args[1]) >= 0:
            return idx(x.args[0], i)
        if is_const(i) and is_const(x.args[1]):
            return idx(x.args[0], i)
    if x.op == "shape":
        if k == 0:
            return len_(x.args[0])
    if x.op == "cat" and k is not None and k >= 0:
        h = x.args[0]
        if h.op == "list":
            if k < len(h.args):
                return h.args[k]
            return idx(cat(x.args[1:]), num(k - len(h.args)))
    if x.op in ("mono", "poly"):
        # scalars stay outside an indexed product or sum
        const_, arr = tm.num(0), None
        for m, c in tm._mono_dict(x).items():
            sc = {p: e for p, e in m if p.op in ("len", "toint", "num")}
            if len(sc) == len(m):
                const_ = tm.add(const_, tm._from_dict({m: c}))
            elif arr is None:
                arr = (tm._from_dict({tuple(p for p in m if p[0] in sc): c}), tm._from_dict({tuple(p for p in m if p[0] not in sc): Fraction(1)}))
            else:
                arr = False
                break
        if arr and (const_ is not ZERO or arr[0] is not tm.num(1)):
            return tm.add(const_, tm.mul(arr[0], idx(arr[1], i)))
    return mk("idx", x, i)


def only_as_index(l, b):
    n, h, body = l.args
    ok = mk("idx", b, mk("bv", h, 0))
    stack = [body]
    seen = set()
    while stack:
        t = stack.pop()
        if id(t) in seen or t is ok:
            continue
        seen.add(id(t))
        if t.op == "bv" and t.args == (h, 0):
            return False
        tm._push(t.args, stack)
    return True


def sliced(l, b, s):
    """[f(x) for x in b][s] = [f(x) for x in b[s]]"""
    v = tm.fresh()
    body = apply_lam(l, [v])
    at = mk("idx", b, v)
    to = idx(idx(b, s), v)
    return rebuild("seq", (ALL, tm.lam([v], tm.map_term(body, lambda t: to if t is at else None, {}))))


def empty(t):
    """An array without elements, by its construction."""
    if t.op == "astype":
        return empty(t.args[0])
    if t.op == "call" and t.args[0] in ("np.empty", "np.zeros", "np.ones"):
        sh = dict(t.args[2]).get("shape")
        return sh is not None and (sh is ZERO or sh.op == "tuple" and len(sh.args) == 1 and sh.args[0] is ZERO)
    return False


def size_(x):
    return ZERO if empty(x) else mk("size", x)


def seti(x, i, v):
    if empty(i):
        return x
    if i is FULL:
        return mk("setall", x, v)
    if i.op == "tuple" and len(i.args) == 1:
        i = i.args[0]
    if x.op == "set" and x.args[1] is i:
        return seti(x.args[0], i, v)
    k = intval(i)
    if x.op in ("list",) and k is not None and -len(x.args) <= k < len(x.args):
        a = list(x.args)
        a[k] = v
        return mk(x.op, *a)
    return mk("set", x, i, v)


def shape(x):
    if x.op == "set":
        return shape(x.args[0])
    if x.op == "scatter":
        return shape(x.args[1])
    return mk("shape", x)


def cat(parts):
    out = []
    for p in parts:
        if p.op == "cat":
            q = list(p.args)
        else:
            q = [p]
        for y in q:
            if y.op == "list" and not y.args:
                continue
            if y.op == "list" and out and out[-1].op == "list":
                out[-1] = mk("list", *(out[-1].args + y.args))
            else:
                out.append(y)
    if not out:
        return mk("list")
    if len(out) == 1:
        return out[0]
    return mk("cat", *out)


def matmul(*fs):
    coef = Fraction(1)
    out = []
    for f in fs:
        if f.op == "matmul":
            g = list(f.args)
        else:
            g = [f]
        for y in g:
            if y.op == "mono" and y.args[0] != 1:
                coef *= y.args[0]
                y = rebuild("mono", (Fraction(1), y.args[1]))
            if y.op == "mono" and len(y.args[1]) == 2:
                # scalar-like factor times one matrix factor cannot be told apart: keep
                pass
            out.append(y)
    for i, y in enumerate(out):
        if y.op == "poly":
            d = tm._mono_dict(y)
            if () not in d and len(d) <= 4:
                r = num(0)
                for m, c in d.items():
                    r = add(r, matmul(*out[:i], tm._from_dict({m: c}), *out[i + 1:]))
                return scale(r, coef) if coef != 1 else r
    r = mk("matmul", *out)
    if coef != 1:
        return scale(r, coef)
    return r


def transpose(x):
    if x.op == "transpose":
        return x.args[0]
    if x.op in ("mono", "poly"):
        md = x
        if x.op == "mono" and x.args[0] != 1:
            return scale(transpose(rebuild("mono", (Fraction(1), x.args[1]))), x.args[0])
    return mk("transpose", x)


def nonneg(t):
    if t.op == "call":
        return t.args[0] in ("np.searchsorted", "np.argmin", "np.argmax", "np.linalg.norm", "np.argsort")
    return t.op in ("len", "abs", "size", "ndim")


def commut(op, items):
    flat = []
    for t in items:
        if t.op == op:
            flat.extend(t.args)
        else:
            flat.append(t)
    seen = {}
    for t in flat:
        seen[t.dig] = t
    fl = [seen[k] for k in sorted(seen)]
    if op == "max" and any(nonneg(t) for t in fl) and any(t.op == "num" and t.args[0] <= 0 for t in fl):
        fl = [t for t in fl if not (t.op == "num" and t.args[0] <= 0)]
    if len(fl) == 1:
        return fl[0]
    if op in ("min", "max"):
        ns = [t for t in fl if t.op == "num"]
        if len(ns) > 1:
            v = (min if op == "min" else max)(t.args[0] for t in ns)
            fl = sorted([t for t in fl if t.op != "num"] + [num(v)], key=lambda t: t.dig)
            if len(fl) == 1:
                return fl[0]
    return mk(op, *fl)


def band(a, b):
    if is_bool(a) and is_bool(b):
        return and_(a, b)
    for x, y in ((a, b), (b, a)):
        if x is TRUE:
            return y
        if x is FALSE:
            return FALSE
    return commut("band", [a, b])


def bor(a, b):
    if is_bool(a) and is_bool(b):
        return or_(a, b)
    return commut("bor", [a, b])


def binv(a):
    if is_bool(a):
        return not_(a)
    if a.op == "binv":
        return a.args[0]
    return mk("binv", a)


def where(m, a, b):
    if a is b:
        return a
    if m is TRUE:
        return a
    if m is FALSE:
        return b
    if m.op == "binv":
        return where(m.args[0], b, a)
    if m.op == "ite" and is_bool(m):
        # reuse the choice normal form for array masks built from comparisons
        return ite(m, a, b)
    if is_bool(m):
        return ite(m, a, b)
    return mk("where", m, a, b)


REBUILD["idx"] = idx
REBUILD["set"] = seti
REBUILD["len"] = len_
REBUILD["truth"] = truth_
REBUILD["shape"] = shape
REBUILD["size"] = size_
REBUILD["matmul"] = matmul
REBUILD["transpose"] = transpose
REBUILD["cat"] = lambda *a: cat(a)
REBUILD["min"] = lambda *a: commut("min", a)
REBUILD["max"] = lambda *a: commut("max", a)
REBUILD["band"] = lambda *a: _fold(band, a)
REBUILD["bor"] = lambda *a: _fold(bor, a)
REBUILD["binv"] = binv
REBUILD["where"] = where


def _fold(f, a):
    r = a[0]
    for x in a[1:]:
        r = f(r, x)
    return r


# ---------------------------------------------------------------- order-free forms
def _colour_order(inits, l, off):
    """Canonical order of the carried variables, by colour refinement."""
    n, h, b = l.args
    k = len(inits)
    nexts, rest = b.args[0].args, b.args[1:]
    idxs = range(k)
    col = [inits[j].dig for j in idxs]
    for _ in range(2 if k > 1 else 0):
        if len(set(col)) == k:
            break
        new = []
        for j in idxs:
            if col.count(col[j]) == 1:
                new.append(col[j])
                continue
            m = {}
            for q in idxs:
                m[off + q] = mk("colour", ("self" if q == j else "") + col[q].hex())
            new.append(mk("colour2", col[j].hex(), _bvsub(nexts[j], h, m), mk("tuple", *[_bvsub(r, h, m) for r in rest])).dig)
        col = new
    return sorted(idxs, key=lambda j: (inits[j].dig, col[j], j))


def _bvsub(t, h, m):
    def f(x):
        if h not in x.bvs:
            return x
        if x.op == "bv" and x.args[0] == h:
            return m.get(x.args[1], x)
        return None
    return tm.map_term(t, f, {})


def _permute(inits, l, off, order):
    n, h, b = l.args
    fs = [tm.fresh() for _ in range(n)]
    body = tm.apply_lam(l, fs)
    nexts = body.args[0].args
    body = mk("tuple", mk("tuple", *[nexts[j] for j in order]), *body.args[1:])
    return tuple(inits[j] for j in order), tm.lam(fs[:off] + [fs[off + j] for j in order], body)


def no_pass(kind, inits, extra):
    """The value of a loop without a pass."""
    if kind == "val" and len(extra) == 1:
        return inits[extra[0]]
    if kind == "flat":
        return NOTHING
    if kind == "any":
        return FALSE
    return None


PROJ = (lambda x: x, lambda x: tm.rebuild("idx", (x, ZERO)), lambda x: tm.rebuild("idx", (x, num(-1))),
        lambda x: tm.rebuild("len", (x,)))


def _through(p, t):
    return ite(t.args[0], _through(p, t.args[1]), _through(p, t.args[2])) if t.op == "ite" else p(t)


def _redundant(kind, n, inits, l, extra):
    """A carried variable that is at every pass the first (last) element, or the
    length, of another one, or equal to it, is not carried."""
    k = len(inits)
    if k > 8 or len(extra) > 1 or (extra and not isinstance(extra[0], int)):
        return None
    fs = body = None
    for i in range(k):
        for j in range(k):
            if i == j:
                continue
            for q, p in enumerate(PROJ):
                if q == 0 and j > i:
                    continue
                if q and inits[j].op not in ("list", "tuple", "cat"):
                    continue
                if p(inits[j]) is not inits[i]:
                    continue
                if fs is None:
                    fs = [tm.fresh() for _ in range(l.args[0])]
                    body = tm.apply_lam(l, fs)
                    if body.args[0].op != "tuple" or len(body.args[0].args) != k:
                        return None
                v = p(fs[1 + j])
                w = fs[1 + i]
                if v is w:
                    continue
                ni, nj = (tm.subst(body.args[0].args[z], {w.args[0]: v}) for z in (i, j))
                if _through(p, nj) is not ni:
                    continue
                b = tm.subst(body, {w.args[0]: v})
                nexts = [x for z, x in enumerate(b.args[0].args) if z != i]
                b = mk("tuple", mk("tuple", *nexts), *b.args[1:])
                e = tuple(j - (j > i) if x == i else x - (x > i) for x in extra)
                r = loop_term(kind, n, tuple(x for z, x in enumerate(inits) if z != i),
                              tm.lam([x for z, x in enumerate(fs) if z != 1 + i], b), *e)
                return p(r) if extra and extra[0] == i else r
    return None


def loop_term(kind, n, inits, l, *extra):
    if n is ZERO:
        r = no_pass(kind, inits, extra)
        if r is not None:
            return r
    if kind == "flat" and l.args[2].op == "tuple" and l.args[2].args[-1] is EMPTY:
        return NOTHING
    if kind == "val" and len(extra) == 1 and isinstance(extra[0], int) and l.args[2].op == "tuple" and l.args[2].args:
        c, e = l.args[2].args[0], extra[0]
        if c.op == "tuple" and len(c.args) == len(inits) and c.args[e].op == "bv" and c.args[e].args == (l.args[1], e + 1):
            return inits[e]             # never changed by a pass
    if len(inits) > 1 and l.args[2].op == "tuple" and l.args[2].args and l.args[2].args[0].op == "tuple":
        r = _redundant(kind, n, inits, l, extra)
        if r is not None:
            return r
        o = _colour_order(inits, l, 1)
        if o != list(range(len(inits))):
            inits, l = _permute(inits, l, 1, o)
            extra = tuple(o.index(e) if isinstance(e, int) else e for e in extra)
    return mk("loop", kind, n, inits, l, *extra)


def early_exit(kind, inits, l):
    """while h: if c: break; B   =   while h and not c: B"""
    b = l.args[2]
    if b.op != "tuple" or len(b.args) < 3 or b.args[0].op != "tuple" or kind not in ("val", "flat") or \
            b.args[1] is FALSE or len(b.args) > (4 if kind == "flat" else 3):
        return l
    from .compare import assign
    from .policy import leaf_atoms
    fs = [tm.fresh() for _ in range(l.args[0])]
    b = tm.apply_lam(l, fs)
    nexts, stop, rest, changed = b.args[0].args, b.args[1], list(b.args[2:]), False
    for c in leaf_atoms(stop).values():
        for v in (True, False):
            if stop is FALSE or assign(stop, c, v) is not TRUE:
                continue
            if any(assign(x, c, v) is not f for x, f in zip(nexts, fs)) or \
                    len(rest) > 1 and assign(rest[1], c, v) is not EMPTY:
                continue
            nexts = [assign(x, c, not v) for x in nexts]
            stop = assign(stop, c, not v)
            rest = [tm.and_(rest[0], tm.not_(c) if v else c)] + [assign(x, c, not v) for x in rest[1:]]
            changed = True
    if not changed:
        return l
    return tm.lam(fs, mk("tuple", mk("tuple", *nexts), stop, *rest))


def while_term(kind, inits, l, *extra):
    l = early_exit(kind, inits, l)
    if len(inits) > 1 and l.args[2].op == "tuple" and l.args[2].args and l.args[2].args[0].op == "tuple":
        o = _colour_order(inits, l, 0)
        if o != list(range(len(inits))):
            inits, l = _permute(inits, l, 0, o)
            extra = tuple(o.index(e) if isinstance(e, int) else e for e in extra)
    return mk("while", kind, inits, l, *extra)


def is_term(a, b):
    return TRUE if a is b else mk("is", *sorted((a, b), key=lambda t: t.dig))


def sign_norm(t):
    md = tm._mono_dict(t)
    if md:
        lead = min(md.items(), key=lambda mc: mk("mono", tm.Fraction(1), mc[0]).dig)[1]
        if lead < 0:
            return tm.neg(t)
    return t


def abs_(t):
    if t.op == "num":
        return tm.num(abs(t.args[0]))
    return mk("abs", sign_norm(t))


def call_(name, pos, kw):
    if name == "np.linalg.norm":
        kw = tuple((k, sign_norm(v) if k == "x" else v) for k, v in kw)
    return mk("call", name, pos, kw)


REBUILD["loop"] = loop_term
REBUILD["while"] = while_term
REBUILD["is"] = is_term
REBUILD["abs"] = abs_
REBUILD["call"] = call_
REBUILD["vdot"] = lambda a, b: mk("vdot", *sorted((a, b), key=lambda t: t.dig))
REBUILD["minlen"] = lambda *a: mk("minlen", *sorted(set(a), key=lambda t: t.dig)) if len(set(a)) > 1 else a[0]
REBUILD["set_"] = lambda *a: mk("set_", *sorted(set(a), key=lambda t: t.dig))


def trace_order(items):
    """Lexicographic normal form of an effect list: effects under mutually
    exclusive conditions (and writes to differently named attributes) commute."""
    n = len(items)
    if n < 2 or n > 60:
        return list(items)
    gs = [(x.args[0], x.args[1]) if x.op == "when" else (TRUE, x) for x in items]
    indep = {}

    def commute(i, j):
        k = (i, j)
        r = indep.get(k)
        if r is None:
            r = gs[i][0] is not TRUE and gs[j][0] is not TRUE and tm.and_(gs[i][0], gs[j][0]) is FALSE
            if not r and gs[i][1].op == "setattr" and gs[j][1].op == "setattr":
                r = gs[i][1].args[1] != gs[j][1].args[1]
            indep[k] = r
        return r
    left = list(range(n))
    out = []
    while left:
        best = None
        for p, j in enumerate(left):
            if best is not None and items[j].dig >= items[best].dig:
                continue
            if all(commute(i, j) for i in left[:p]):
                best = j
        out.append(best)
        left.remove(best)
    return [items[j] for j in out]
