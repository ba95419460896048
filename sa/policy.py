"""When does a disagreement of two normal forms amount to different behaviour?

Two different normal forms need not denote different functions: the normaliser
is sound but incomplete.  A disagreement is reported only when the two terms
differ by *local edits*: an atom replaced by another, an operation dropped or
added around an otherwise unchanged operand, a changed coefficient, operand,
key, condition.  When the computation is organised differently (another loop
kind, another library function on other operands) nothing is claimed.
"""
from __future__ import annotations
from . import terms as tm
from .compare import in_step
from .terms import T, subterms, apply_lam, fresh
from .ops import _permute

ATOMS = {"num", "const", "sym", "fv", "bv", "ext", "global", "enum", "class", "dtype", "funcref"}
NEUTRAL = {"jnp.asarray", "jnp.array", "list", "tuple", "stack", "copy", "float", "int", "jnp.stack", "np.asarray"}
# ways of writing the same thing: a swap within a family may or may not matter
FAMILIES = [set(z.split()) for z in (
    "hstack vstack stack concatenate column_stack row_stack dstack append block array asarray concat",
    "ravel flatten reshape squeeze atleast_1d", "max amax nanmax maximum fmax clip", "min amin nanmin minimum fmin clip",
    "dot matmul inner vdot tensordot einsum multiply", "sum einsum nansum add fsum", "where select piecewise cond switch",
    "argwhere nonzero flatnonzero where", "full zeros ones empty zeros_like ones_like full_like empty_like",
    "isin in1d intersect1d setdiff1d", "linspace arange mgrid indices meshgrid", "fori_loop scan while_loop map",
    "vmap map vectorize", "tree_map map tree_multimap", "lexsort argsort sort sorted unique", "searchsorted digitize",
    "repeat tile broadcast_to", "square power pow", "hypot norm sqrt", "relu maximum max clip", "eye identity diag",
    "solve spsolve inv", "coo_matrix csr_matrix csc_matrix coo_array csr_array", "deepcopy copy",
    "stop_gradient block_until_ready device_put", "jit remat checkpoint", "is_array isinstance", "minimum_reduce min")]
BROADCAST = {"repeat", "tile", "broadcast_to"}
UNARY = {"abs", "sqrt", "exp", "log", "neg"}


def last_name(f):
    f = f if isinstance(f, str) else f.args[0] if f.op == "ext" else ""
    return str(f).split(".")[-1]


def relatives(f, g):
    f, g = last_name(f), last_name(g)
    return any(f in z and g in z for z in FAMILIES)


def spread(x, y):
    """y is x repeated along some axis."""
    if y.op != "call" or last_name(y.args[0]) not in BROADCAST:
        return False
    return any(a is x for a in list(y.args[1])[:1] + [v for k, v in y.args[2] if k in ("a", "A", "array", "arr")])


LOOPS = {"loop", "seq", "flat", "filt", "fold", "while", "loopval", "reduce", "next", "any", "all", "anyof", "allof", "dictcomp", "minlen"}
EXTRA = 14


def element(x, y):
    """A reduction over an array on one side, one fixed element of the same array on the other."""
    if x.op != "call" or not isinstance(x.args[0], str) or last_name(x.args[0]) not in ("mean", "sum", "max", "min", "prod"):
        return False
    a = [v for k, v in x.args[2] if k in ("a", "array", "x")] + list(x.args[1])[:1]
    if not a or y.op != "idx" or y.args[0] is not a[0]:
        return False
    k = y.args[1]
    return k.op == "num" or k.op == "tuple" and all(z.op == "num" for z in k.args)


def single(x, y):
    """A sum over all of a sequence on one side, arithmetic on one of its elements on the other."""
    if x.op != "sumover":
        return False
    seqs = set()
    for t in subterms(x.args[1]).values():
        if t.op == "idx" and t.args[1].op == "bv":
            p = t.args[0]
            seqs.add((p.args[0] if p.op == "idx" and p.args[1].op == "slice" else p).dig)

    def at(t):
        if t.op == "idx" and t.args[0].op == "seq" and len(t.args[0].args) == 2 and t.args[0].args[1].op == "lam":
            return apply_lam(t.args[0].args[1], [t.args[1]])
    y = tm.map_term(y, at, {})
    pts = set()
    for t in subterms(y).values():
        if t.op not in ("poly", "mono", "idx", "num", "sym", "attr", "const", "self", "fv"):
            return False
        if t.op == "idx" and t.args[0].dig in seqs:
            pts.add(t.args[1].dig)
    return len(pts) == 1


def kids(t):
    out = []
    tm._push(t.args, out)
    return out


def head(t):
    if t.op == "call":
        return ("call", t.args[0] if isinstance(t.args[0], str) else "app")
    return (t.op,)


class Shim:
    """A commutative operation seen as a contraction without subscripts."""

    def __init__(self, t):
        self.op, self.args = t.op, (None,) + tuple(t.args)


class Local:
    """local(x, y): y arises from x by local edits."""

    def __init__(self, ref, got):
        self.memo = {}
        self.keep = []
        self.em = {}
        self.inref = {x.dig for x in subterms(erase(ref, self.em)).values()}
        self.ingot = {x.dig for x in subterms(erase(got, self.em)).values()}
        self.n = 0
        self.lost, self.won = set(), set()      # tests dropped, tests added

    def __call__(self, x, y, depth=0):
        if x is y:
            return True
        k = (id(x), id(y))
        r = self.memo.get(k)
        if r is None:
            self.n += 1
            if self.n > 20000 or depth > 60:
                return False
            self.memo[k] = False
            self.keep.append((x, y))
            r = self.memo[k] = self.local(x, y, depth + 1)
        return r

    def known(self, x, y):
        """The reference uses the value y elsewhere, or the found program x: another value was picked."""
        for p, q in ((x, y), (y, x)):
            if p.size < q.size:
                sq = subterms(q)
                if id(p) in sq:
                    sp = subterms(p)
                    if neutral([z for i, z in sq.items() if i not in sp and z.op not in ATOMS]):
                        return False
        return (not trivial(y) and erase(y, self.em).dig in self.inref) or \
               (not trivial(x) and erase(x, self.em).dig in self.ingot)

    def local(self, x, y, d):
        if x.unk or y.unk:
            return False
        if x.op in ATOMS and y.op in ATOMS:
            return True
        if tm.is_bool(x) and tm.is_bool(y) and (x.op == "ite" or y.op == "ite" or x.op == "const" or y.op == "const"):
            return self.conditions(x, y, d)
        if spread(x, y) or spread(y, x):
            return False
        if self.known(x, y):
            return True
        if self.embeds(x, y) or self.embeds(y, x):
            return True
        if self.around(x, y, d) or self.around(y, x, d, True):
            return True
        if x.op in ATOMS or y.op in ATOMS:
            # a literal in place of a small expression, or conversely
            z = y if x.op in ATOMS else x
            if z.op == "poly" and (x.op == "num" or y.op == "num"):
                return self.poly(x, y, d)
            return z.size <= 6 and not any(k.op in LOOPS for k in subterms(z).values())
        if x.op == "lam" and y.op == "lam":
            if x.args[0] != y.args[0]:
                return False
            fs = [fresh() for _ in range(x.args[0])]
            return self(apply_lam(x, fs), apply_lam(y, fs), d)
        if x.op in ("poly", "mono") or y.op in ("poly", "mono"):
            return self.poly(x, y, d) or compact(x, y) or single(x, y) or single(y, x)
        if x.op == "ite" or y.op == "ite":
            return self.choice(x, y, d)
        if x.op in ("gt0", "eq0") and y.op in ("gt0", "eq0"):
            return self.linear(x, y, d)
        if x.op in tm.BOOL_OPS and y.op in tm.BOOL_OPS and x.op != y.op:
            return {x.op, y.op} == {"isnone", "truth"} and x.args[0] is y.args[0]
        if compact(x, y) or element(x, y) or element(y, x):
            return True
        if x.op != y.op:
            for p, q in ((x, y), (y, x)):
                if p.op in UNARY and len(p.args) == 1 and q.op == "call" and isinstance(q.args[0], str) and \
                        len(q.args[1]) + len(q.args[2]) == 1 and not relatives(p.op, q.args[0]):
                    return (list(q.args[1]) + [v for _, v in q.args[2]])[0] is p.args[0]
            if {x.op, y.op} == {"min", "max"}:
                return set(x.args) == set(y.args)
            if {x.op, y.op} == {"set", "scatter"}:
                s, c = (x, y) if x.op == "set" else (y, x)
                return len(c.args) == 4 and c.args[1:] == s.args
            if "eff" in (x.op, y.op):           # an effect dropped or added
                e, o = (x, y) if x.op == "eff" else (y, x)
                return self(e.args[0], o, d) if e is x else self(o, e.args[0], d)
            return False
        if x.op == "vmap":
            y = in_step(x, y)
        if x.op == "einsum":
            return self.contraction(x, y, d)
        if x.op == "loop" and x.args[1] is not y.args[1] and "ite" in (x.args[1].op, y.args[1].op):
            return False                        # passes counted by cases
        if x.op in ("loop", "while") and x.args[0] == y.args[0] and len(x.args) == len(y.args) and \
                max(len(x.args[2 if x.op == "loop" else 1]), len(y.args[2 if x.op == "loop" else 1])) > 1:
            return self.loops(x, y, d)
        if x.op == "attr" and x.args[0] is y.args[0]:
            return True
        if x.op == "call":
            return self.call(x, y, d)
        if x.op in ("list", "tuple"):
            return self.items(x.args, y.args, d)
        if x.op == "eff":
            return self.effects(x, y, d)
        if x.op == "matmul":
            px, py = list(x.args), list(y.args)
            while len(px) > 1 and len(py) > 1 and px[0] is py[0]:
                del px[0], py[0]
            while len(px) > 1 and len(py) > 1 and px[-1] is py[-1]:
                del px[-1], py[-1]
            if len(px) != len(py) or len(px) == 1:
                px, py = (p[0] if len(p) == 1 else tm.mk("matmul", *p) for p in (px, py))
                return (px, py) != (x, y) and self(px, py, d)
        if x.op in ("min", "max", "band", "bor", "vdot"):
            return self.contraction(Shim(x), Shim(y), d)
        if len(x.args) != len(y.args):
            return False
        return self.arg(x.args, y.args, d)

    def contraction(self, x, y, d):
        px, py = x.args[1:], y.args[1:]
        if len(px) != len(py) and x.op == "einsum":
            return False
        l = [p for p in px if not any(p is q for q in py)]
        r = [q for q in py if not any(p is q for p in px)]
        if not l and not r:
            return x.op == "einsum" or len(px) != len(py)       # other subscripts
        if not l or not r:
            return x.op != "einsum"             # an operand more or less
        if len(l) == len(r) == 1:
            return self(l[0], r[0], d)
        return len(l) == len(r) == 2 and any(self(l[0], r[i], d) and self(l[1], r[1 - i], d) for i in (0, 1))

    def loops(self, x, y, d):
        """Carried variables may be listed in another order, and some added or dropped."""
        o = 2 if x.op == "loop" else 1
        off = o - 1
        ix, iy, lx, ly = x.args[o], y.args[o], x.args[o + 1], y.args[o + 1]
        for l in (lx, ly):
            if l.args[2].op != "tuple" or not l.args[2].args or l.args[2].args[0].op != "tuple":
                return False
        if x.op == "loop" and not self(x.args[1], y.args[1], d):
            return False
        if len(lx.args[2].args) != len(ly.args[2].args) or lx.args[0] - len(ix) != ly.args[0] - len(iy):
            return False
        order, left = {}, list(range(len(iy)))
        for j, p in enumerate(ix):
            for q in left:
                if iy[q] is p:
                    order[j] = q
                    left.remove(q)
                    break
        ex = [e for e in x.args[o + 2:] if isinstance(e, int)]
        ey = [e for e in y.args[o + 2:] if isinstance(e, int)]
        rest = [j for j in range(len(ix)) if j not in order]
        if len(rest) > 1 and len(rest) == len(left):
            # the projected variable corresponds to the projected one
            for p, q in zip(ex, ey):
                if p in rest and q in left:
                    order[p] = q
                    rest.remove(p)
                    left.remove(q)
        for j in list(rest) * 2:
            for q in left if j in rest else ():
                if head(iy[q]) == head(ix[j]) or len(rest) == len(left) == 1:
                    order[j] = q
                    left.remove(q)
                    rest.remove(j)
                    break
        if rest and left:
            return False
        if [order.get(e) for e in ex] != ey:
            return False
        fx = [fresh() for _ in range(lx.args[0])]
        fy = [fresh() for _ in range(ly.args[0])]
        fy[:off] = fx[:off]
        for j, q in order.items():
            fy[off + q] = fx[off + j]
        bx, by = apply_lam(lx, fx), apply_lam(ly, fy)
        for j, q in order.items():
            if not self(ix[j], iy[q], d) or not self(bx.args[0].args[j], by.args[0].args[q], d):
                return False
        return all(self.arg(p, q, d) for p, q in zip(bx.args[1:], by.args[1:]))

    def effects(self, x, y, d):
        wx = {w.args[0]: w for w in x.args[2:] if w.op == "write"}
        wy = {w.args[0]: w for w in y.args[2:] if w.op == "write"}
        for k in set(wx) & set(wy):
            if not self(wx[k], wy[k], d):
                return False
        if x.args[0] is not y.args[0] and not ("bottom" in (x.args[0].op, y.args[0].op)) and not self(x.args[0], y.args[0], d):
            return False
        ex, ey = x.args[1], y.args[1]
        return self(ex.args[0], ey.args[0], d) and self(ex.args[2], ey.args[2], d)

    def conditions(self, x, y, d):
        """Boolean combinations: the same tests combined differently, tests dropped, added or changed locally."""
        return self.pair(leaf_atoms(x), leaf_atoms(y), d) is None

    def pair(self, ca, cb, d=0, note=False):
        """None, or a condition of the smaller one-sided set without a counterpart."""
        A = [c for k, c in ca.items() if k not in cb]
        B = [c for k, c in cb.items() if k not in ca]
        if not A or not B:
            if note:
                self.lost.update(erase(c, self.em).dig for c in A)
                self.won.update(erase(c, self.em).dig for c in B)
            return None
        s, l = (A, B) if len(A) <= len(B) else (B, A)
        left = list(l)
        for c in s:
            for e in left:
                if c.op == e.op and (self(c, e, d) if s is A else self(e, c, d)):
                    left.remove(e)
                    break
            else:
                for e in left:
                    if c.op != e.op and (self(c, e, d) if s is A else self(e, c, d)):
                        left.remove(e)
                        break
                else:
                    return c
        return left[0] if len(left) > 3 else None      # several tests became one

    def arg(self, p, q, d):
        if isinstance(p, T) and isinstance(q, T):
            return self(p, q, d)
        if isinstance(p, tuple) and isinstance(q, tuple):
            if len(p) != len(q):
                return False
            return all(self.arg(a, b, d) for a, b in zip(p, q))
        if isinstance(p, T) or isinstance(q, T):
            return False
        return True

    def items(self, p, q, d):
        if len(p) == len(q):
            bad = [(a, b) for a, b in zip(p, q) if a is not b]
            if sorted(a.dig for a, _ in bad) == sorted(b.dig for _, b in bad):
                return True                     # permuted
            if all(self(a, b, d) for a, b in bad):
                return True
        l = [b for b in q if not any(a is b for a in p)]
        r = [a for a in p if not any(a is b for b in q)]
        if not l or not r:
            return True                         # elements dropped or added
        if len(l) > 12 or len(r) > 12:
            return False
        sm, lg = (r, l) if len(r) <= len(l) else (l, r)
        left = list(lg)
        for a in sm:
            for b in left:
                if self(a, b, d) if sm is r else self(b, a, d):
                    left.remove(b)
                    break
            else:
                return False
        return True

    def call(self, x, y, d):
        fx, fy = x.args[0], y.args[0]
        same = fx == fy if isinstance(fx, str) and isinstance(fy, str) else fx is fy
        px, py = x.args[1], y.args[1]
        kx, ky = dict(x.args[2]), dict(y.args[2])
        if not same:
            if isinstance(fx, T) and isinstance(fy, T):
                if not self(fx, fy, d):
                    return False
            elif isinstance(fx, T) or isinstance(fy, T):
                return False
            elif relatives(fx, fy):
                return False
            elif px != py or not all(self(kx[k], ky[k], d) for k in set(kx) & set(ky)) or \
                    sum(kx[k] is not ky[k] for k in set(kx) & set(ky)) > 1 or len(set(kx) ^ set(ky)) > 1 or \
                    kx.keys() != ky.keys() and len(px) + len(set(kx) & set(ky)) < 3:
                return False
            return True
        if len(px) == len(py) and sorted(a.dig for a in px) == sorted(b.dig for b in py):
            pass                                # permuted operands
        elif len(px) != len(py):
            if abs(len(px) - len(py)) > 1:
                return False
            n = min(len(px), len(py))
            if any(a is not b for a, b in zip(px[:n], py[:n])):
                return False
        elif not all(self(a, b, d) for a, b in zip(px, py)):
            return False
        for k in set(kx) | set(ky):
            if k in kx and k in ky and not self(kx[k], ky[k], d):
                return False
        return True

    def choice(self, x, y, d):
        """A choice: the same alternatives under locally changed tests."""
        if x.op == "ite" and y.op == "ite" and x.args[0] is y.args[0]:
            return self(x.args[1], y.args[1], d) and self(x.args[2], y.args[2], d)
        ax, lx = alternatives(x)
        ay, ly = alternatives(y)
        if self.pair(ax, ay, d, True) is not None:
            return False
        one = [v for k, v in lx.items() if k not in ly], [v for k, v in ly.items() if k not in lx]
        if not one[0] or not one[1]:
            return True
        return self.items(one[0], one[1], d)

    def linear(self, x, y, d):
        p, q = x.args[0], y.args[0]
        if x.op == "gt0" and y.op == "gt0":
            s = tm.add(p, q)
            if s.op == "num" and 0 < s.args[0] <= 1:
                return False            # the same test on integers, negated
        return self(p, q, d) or self(tm.neg(p), q, d)

    def poly(self, x, y, d):
        da, db = dict(tm._mono_dict(x)), dict(tm._mono_dict(y))
        for m in list(da):
            if m in db and da[m] == db[m]:
                del da[m], db[m]
        ra, rb = tm._from_dict(da), tm._from_dict(db)
        fa, fb = flat_atoms(ra), flat_atoms(rb)
        oa, ob = [v for k, v in fa.items() if k not in fb], [v for k, v in fb.items() if k not in fa]
        if not oa and not ob:
            return tm.rational_equal(ra, rb) is False        # other arithmetic on the same quantities
        ka, kb = set(da), set(db)
        if ka == kb:
            return True                          # coefficients
        if not ka or not kb:
            return self.small(da or db)          # a term dropped or added
        for m in ka & kb:                        # coefficient changes
            del da[m], db[m]
        if not da or not db:
            return self.small(da or db)
        if len(oa) == 1 and len(ob) == 1 and self(oa[0], ob[0], d):
            return True                          # one quantity replaced
        if len(oa) + len(ob) == 1 and tm.rational_equal(ra, rb) is False and simple((oa + ob)[0]):
            return True                          # one quantity more or less
        if len(da) > 8 or len(db) > 8:
            return False
        if len(da) != len(db):
            return False
        used = set()
        for m, c in da.items():
            for n, e in db.items():
                if n in used:
                    continue
                if self.mono(m, n, d):
                    used.add(n)
                    break
            else:
                return False
        return True

    def mono(self, m, n, d):
        fa = [p for p in m if p not in n]
        fb = [p for p in n if p not in m]
        if not fa or not fb:
            return all(simple(p[0]) for p in fa + fb)
        if len(fa) == len(fb) == 1:
            return self(fa[0][0], fb[0][0], d)
        if len(fa) == len(fb) and {p[0] for p in fa} == {p[0] for p in fb}:
            return True                         # exponents
        if len(fa) == len(fb) == 2:
            for i, j in ((0, 1), (1, 0)):
                if self(fa[0][0], fb[i][0], d) and self(fa[1][0], fb[j][0], d):
                    return True
        return False

    def small(self, m):
        return sum(tm.mk("mono", c, k).size if k else 1 for k, c in m.items()) <= 400

    def around(self, x, y, d, swap=False):
        """y is a small context around a locally edited x (one that contains the edit again)."""
        if y.size <= x.size + 1 or x.size < 8 or x.op == y.op or x.op not in ("call", "rec", "idx", "attr"):
            return False
        sy = subterms(y)
        for z in sy.values():
            if z.op != x.op or z is y or head(z) != head(x) or not 0.2 < z.size / x.size < 20:
                continue
            sz = subterms(z)
            extra = [w for i, w in sy.items() if i not in sz and w.op not in ATOMS]
            if len(extra) > EXTRA or {head(w)[-1] for w in extra} & LOOPS or neutral(extra):
                continue
            if self(z, x, d) if swap else self(x, z, d):
                return True
        return False

    def embeds(self, x, y):
        """y is a small context around x."""
        if y.size <= x.size or y.op in ATOMS or x.op in ATOMS:
            if not (x.op in ATOMS and x.op in ("sym", "fv", "bv") and y.size <= 24):
                return False
        sy = subterms(y)
        if id(x) not in sy:
            return False
        sx = subterms(x)
        seen = self.inref if y.dig in self.ingot and y.dig not in self.inref else self.ingot
        extra = [z for i, z in sy.items() if i not in sx and z.op not in ATOMS]
        if len(extra) > EXTRA and len([z for z in extra if z.dig not in seen]) > EXTRA:
            return False
        heads = {head(z)[-1] for z in extra}
        if heads & LOOPS:
            return False
        return not neutral(extra)


KNOWN = {"idx", "attr", "poly", "mono", "min", "max", "set", "scatter", "abs"}
SHAPE = {"shape", "size", "ndim", "T", "dtype", "n", "len"}


def compact(x, y):
    """Two small expressions over shared values, of operations whose laws the normal form contains."""
    if x.op == y.op and x.op not in ("poly", "mono"):
        return False
    sx, sy = subterms(x), subterms(y)
    if not set(sx) & set(sy):
        return False
    own = [z for i, z in sx.items() if i not in sy] + [z for i, z in sy.items() if i not in sx]
    own = [z for z in own if z.op not in ATOMS]
    if len(own) > 6:
        return False
    for z in own:
        if z.op not in KNOWN or z.op == "attr" and z.args[1] in SHAPE:
            return False
        if z.op == "idx" and any(k.op == "attr" and k.args[1] in SHAPE for k in kids(z)):
            return False
    return True


def neutral(extra):
    return all(head(z)[-1] in NEUTRAL or z.op == "astype" and z.args[1].op == "dtype" and z.args[1].args[0] in ("int64", "float64")
               for z in extra)


def flat_atoms(t):
    """The atoms of a rational expression."""
    out, stack = {}, [t]
    while stack:
        x = stack.pop()
        if x.op in ("poly", "mono") or (x.op == "num"):
            for m in tm._mono_dict(x):
                stack.extend(a for a, _ in m)
        else:
            out[x.dig] = x
    return out


def simple(t):
    return t.op in ATOMS or (t.size <= 60 and not any(k.op in LOOPS for k in subterms(t).values()))


def erase(t, memo):
    def f(x):
        if x.op in ("bv", "fv"):
            return tm.sym("<bound>")
        if x.op == "lam":
            return tm.mk("lam", x.args[0], 0, tm.map_term(x.args[2], f, memo))
        return None
    return tm.map_term(t, f, memo)


def trivial(t):
    return t.op in ATOMS and t.op not in ("sym", "fv", "bv") or (t.op in ("list", "tuple", "dict") and not t.args) or t.size <= 1


def leaf_atoms(t):
    """The tests a Boolean term is made of."""
    out = {}
    stack = [t]
    while stack:
        x = stack.pop()
        if x.op == "ite":
            stack.extend(x.args)
        elif x.op in tm.BOOL_OPS:
            out[x.dig] = x
    return out


def alternatives(t):
    at, lv = {}, {}
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.op == "ite":
            at.update(leaf_atoms(x.args[0]))
            stack.extend(x.args[1:])
        else:
            lv[x.dig] = x
    return at, lv


def raw_atoms(t, memo):
    """Branch conditions of t."""
    out = {}
    for x in subterms(t).values():
        if x.op == "ite" or x.op == "when":
            c = x.args[0]
            for z in [c] + ([y for y in x.args[1:] if y.op in tm.BOOL_OPS] if x.op == "ite" else []):
                if z.op in tm.BOOL_OPS:
                    out[erase(z, memo).dig] = z
    return out


def same_actions(d):
    """Two effect traces with the same actions under large guards."""
    if d.a.op != "list" or d.b.op != "list":
        return False

    def acts(t):
        out = []
        for x in t.args:
            while x.op == "when":
                x = x.args[1]
            out.append(x.dig)
        return set(out)
    if not any(x.op == "when" for x in d.a.args + d.b.args):
        return False
    return acts(d.a) == acts(d.b) and len(subterms(d.a)) + len(subterms(d.b)) > 300


def alpha(d):
    """The disagreement up to the names of the bound variables."""
    seen = {}

    def f(x):
        if x.op == "fv":
            return seen.setdefault(id(x), tm.mk("bound", len(seen)))
        return None
    return tm.map_term(tm.mk("pair", d.a, d.b), f, {}).dig


def judge(diffs, a, b, maxdiffs=200):
    if b.unk or a.unk:
        if any(d.a.unk or d.b.unk for d in diffs):
            return "weak", "unmodelled construct in the disagreement"
    if any(d.why == "budget" for d in diffs):
        return "weak", "comparison budget"
    for d in diffs:
        for x in (d.a, d.b):
            if x.op == "call" and isinstance(x.args[0], str) and x.args[0].startswith(("gen:", "rec:")):
                return "weak", "generator or recursive function"
    rest = [d for d in diffs if not same_actions(d)]
    if not rest:
        return "weak", "same actions under guards not proved equal"
    k = len({alpha(d) for d in diffs})
    if k > maxdiffs:
        return "weak", "%d disagreements" % k
    L = Local(a, b)
    # conditions occurring on one side only
    c = L.pair(raw_atoms(a, L.em), raw_atoms(b, L.em))
    if c is not None:
        return "weak", "restructured condition " + tm.show(c, 3)[:120]
    for d in rest:
        if d.why in ("signature", "exception kinds") or d.why.startswith("default of"):
            continue
        if d.why in ("sum", "product") and (d.a.op == "num" or d.b.op == "num"):
            continue                    # a term or factor dropped or added
        flags = [(x, y) for x, y in ((d.a, d.b), (d.b, d.a)) if x.op == "const" and isinstance(x.args[0], bool) and not tm.is_bool(y)]
        if flags and tm.mk("truth", flags[0][1]).dig in L.inref | L.ingot:
            return "weak", "truth value or the value itself"
        if trivial(d.a) or trivial(d.b):
            continue                    # a computation dropped or added
        if not L(d.a, d.b):
            return "weak", "restructured: %s <> %s" % (tm.show(d.a, 2)[:80], tm.show(d.b, 2)[:80])
    if L.lost & L.won:
        return "weak", "a test moved"
    return "diff", "%d disagreement(s)" % len(diffs)
