"""Hash-consed value terms and their normalising constructors.

A term denotes the value of an expression of the analysed program as a
function of the entry point's inputs.  Two program fragments whose terms
normalise to the same term compute the same value for *every* input; nothing
is executed and no solver is called.
"""
from __future__ import annotations
import hashlib, time
from fractions import Fraction

_TABLE = {}
NOBV = frozenset()


class T:
    __slots__ = ("op", "args", "dig", "fv", "unk", "height", "loc", "size", "_memo", "bvs", "sig")

    def __repr__(self):
        return show(self, 6)


CUR = {"loc": None, "repo": True}
LIMIT = {"until": None, "n": 0}


class OutOfTime(Exception):
    pass


def tick():
    LIMIT["n"] += 1
    if LIMIT["n"] & 1023 == 0 and LIMIT["until"] is not None and time.process_time() > LIMIT["until"]:
        raise OutOfTime()


def _h(x, acc):
    if isinstance(x, T):
        acc.append(b"T" + x.dig)
    elif isinstance(x, tuple):
        acc.append(b"(%d" % len(x))
        for y in x:
            _h(y, acc)
        acc.append(b")")
    else:
        acc.append((type(x).__name__ + ":" + repr(x) + ";").encode())


def _scan(x, fv, st):
    if isinstance(x, T):
        if x.fv:
            fv |= x.fv
        if x.unk:
            st[0] = True
        if x.height > st[1]:
            st[1] = x.height
        st[2] += x.size
        if x.bvs:
            st[3] = st[3] | x.bvs
        st[4] |= x.sig
    elif isinstance(x, tuple):
        for y in x:
            _scan(y, fv, st)


def mk(op, *args):
    tick()
    key = (op, tuple([id(a) if isinstance(a, T) else _k(a) for a in args]))
    try:
        t = _TABLE.get(key)
    except TypeError:
        raise TypeError("unhashable term args %r" % (key,))
    if t is not None:
        return t
    t = T()
    t.op, t.args = op, args
    acc = [op.encode(), b"|"]
    for a in args:
        _h(a, acc)
    t.dig = hashlib.blake2b(b"".join(acc), digest_size=12).digest()
    fv = set()
    st = [False, 0, 1, NOBV, 0]
    for a in args:
        _scan(a, fv, st)
    t.bvs = frozenset((args[0],)) if op == "bv" else st[3] - {args[1]} if op == "lam" else st[3]
    t.sig = st[4] | 1 << (int.from_bytes(t.dig[:2], "little") & 1023)
    if op == "fv":
        fv = {t.args[0]}
    t.fv = frozenset(fv)
    t.unk = st[0] or op == "unk"
    t.height = st[1] + (1 if op == "lam" else 0)
    t.size = min(st[2], 10 ** 9)
    t.loc = CUR["loc"]
    t._memo = None
    _TABLE[key] = t
    return t


def _k(a):
    # distinguish 1 / True / 1.0 which hash equal in Python
    if isinstance(a, T):
        return id(a)
    if isinstance(a, tuple):
        return tuple(_k(b) for b in a)
    return (type(a).__name__, a)


# ---------------------------------------------------------------- constants
def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
        if v is Ellipsis:
            return mk("const", "...Ellipsis")
        return mk("const", v)
    if isinstance(v, (int, Fraction)):
        return num(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return mk("const", "float:" + repr(v))
        return num(Fraction(repr(v)))
    if isinstance(v, complex):
        return mk("const", "complex:" + repr(v))
    raise TypeError(v)


def num(v):
    return mk("num", Fraction(v))


def sym(name):
    return mk("sym", name)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ZERO = num(0)
ONE = num(1)
ELLIPSIS = const(Ellipsis)


def is_num(t):
    return isinstance(t, T) and t.op == "num"


def is_const(t, v=...):
    if not isinstance(t, T) or t.op != "const":
        return False
    return True if v is ... else (t.args[0] is v if isinstance(v, bool) or v is None else t.args[0] == v)


def intval(t):
    if isinstance(t, T):
        if t.op == "num" and t.args[0].denominator == 1:
            return int(t.args[0])
        if t.op == "const" and isinstance(t.args[0], bool):
            return int(t.args[0])
    return None


def unk(reason, *deps):
    return mk("unk", reason, *deps)


# ---------------------------------------------------------------- booleans / choice
_ITE = {}


def _negconst(c):
    return c.op == "ite" and c.args[1] is FALSE and c.args[2] is TRUE


def ite(c, a, b, depth=0):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    key = (id(c), id(a), id(b))
    r = _ITE.get(key)
    if r is not None:
        return r
    r = _ite(c, a, b, depth)
    _ITE[key] = r
    return r


def _top(t):
    return t.args[0] if t.op == "ite" else None


def _cof(t, v, val):
    if t is v:
        return TRUE if val else FALSE
    if t.op == "ite" and t.args[0] is v:
        return t.args[1] if val else t.args[2]
    return t


def _ite(c, a, b, depth):
    tops = []
    if c.op == "ite":
        tops.append(c.args[0])
    else:
        tops.append(c)
    if depth < 40:
        for x in (a, b):
            if x.op == "ite":
                tops.append(x.args[0])
            elif is_atom_bool(x):
                tops.append(x)
    v = min(tops, key=lambda t: t.dig)
    if depth >= 40:
        v = tops[0]
    hi = ite(_cof(c, v, True), _cof(a, v, True), _cof(b, v, True), depth + 1)
    lo = ite(_cof(c, v, False), _cof(a, v, False), _cof(b, v, False), depth + 1)
    if v.op in THEORY:
        hi = _prune(hi, v, True)
        if v.op in LINEAR:
            lo = _prune(lo, v, False)
    if hi is lo:
        return hi
    if hi is TRUE and lo is FALSE:
        return v
    if v.op == "gt0" and hi.op in NUMERIC and lo.op in NUMERIC:
        d = sub(hi, lo)
        if d.op != "num":
            if _samedir(d, v.args[0]):
                return rebuild("max", (hi, lo))
            if _samedir(neg(d), v.args[0]):
                return rebuild("min", (hi, lo))
    if v.op in ("truth", "eq0", "gt0") and v.args[0].op in ("size", "len"):
        # writing nowhere: a[i] = x with an empty i
        full, none = (lo, hi) if v.op == "eq0" else (hi, lo)
        if full.op in ("set", "scatter") and full.args[-2] is v.args[0].args[0] and none in full.args:
            if full.op == "set" and full.args[0] is none:
                return full
    return mk("ite", v, hi, lo)


NUMERIC = {"num", "poly", "mono", "sym", "attr", "idx", "len", "fv", "bv", "call", "min", "max", "fdiv", "mod", "abs", "toint"}


def _samedir(d, p):
    """d = k*p with k > 0"""
    if d is p:
        return True
    a, b = _mono_dict(d), _mono_dict(p)
    if set(a) != set(b) or not a:
        return False
    m = next(iter(a))
    k = a[m] / b[m]
    return k > 0 and all(a[x] == k * b[x] for x in a)


# conditions on one value that cannot hold together
THEORY = {"isinst", "isnone", "eq", "truth", "gt0", "eq0"}
DISJOINT = [lambda a, b: False]
_PR = {}


def excludes(v, w):
    """v true implies w false."""
    if w.op not in THEORY or v is w:
        return False
    if v.op == "eq" or w.op == "eq":
        if v.op == "eq" and w.op == "eq":
            for i in (0, 1):
                for j in (0, 1):
                    k, l = v.args[1 - i], w.args[1 - j]
                    if v.args[i] is w.args[j] and k.op in ("const", "enum") and l.op == k.op and k is not l:
                        return True
            return False
        e, o = (v, w) if v.op == "eq" else (w, v)
        if o.op == "isnone":
            return (e.args[0] is o.args[0] and e.args[1].op in ("const", "enum")) or \
                   (e.args[1] is o.args[0] and e.args[0].op in ("const", "enum"))
        return False
    if v.op in ("gt0", "eq0") or w.op in ("gt0", "eq0") or v.args[0] is not w.args[0]:
        return False
    if v.op == "isinst" and w.op == "isinst":
        a, b = v.args[1], w.args[1]
        return a.op == "const" and b.op == "const" and DISJOINT[0](a.args[0], b.args[0])
    return "isnone" in (v.op, w.op)


LINEAR = {"gt0", "eq0", "truth"}
_LF = {}


def linform(w):
    """(quantity, relation, bound) of a linear condition: quantity > < = bound."""
    r = _LF.get(id(w))
    if r is None:
        r = False
        if w.op == "truth":
            r = (((((mk("len", w.args[0]), Fraction(1)),), Fraction(1)),), ">", Fraction(0))
        else:
            md = _mono_dict(w.args[0])
            k = md.get((), Fraction(0))
            rest = [(m, c) for m, c in md.items() if m]
            if rest and all(not isinstance(c, complex) for c in md.values()):
                rest.sort(key=lambda mc: mk("mono", Fraction(1), mc[0]).dig)
                lead = rest[0][1]
                q = tuple((m, c / lead) for m, c in rest)
                rel = "=" if w.op == "eq0" else (">" if lead > 0 else "<")
                r = (q, rel, -k / lead)
        _LF[id(w)] = r
        _LFK.append(w)
    return r


_LFK = []


def lindecide(v, val, w):
    f, g = linform(v), linform(w)
    if not f or not g or f[0] != g[0]:
        return None
    (_, r, t), (_, s, u) = f, g
    if r == "=":
        if not val:
            return None
        return t == u if s == "=" else (t > u if s == ">" else t < u)
    # the set of quantities allowed by v: an interval lo..hi
    if (r == ">") == val:
        lo, lo_open, hi, hi_open = t, (r == ">"), None, True
    else:
        lo, lo_open, hi, hi_open = None, True, t, (r == "<")
    if s == "=":
        if lo is not None and (u < lo or (u == lo and lo_open)):
            return False
        if hi is not None and (u > hi or (u == hi and hi_open)):
            return False
        return None
    if s == ">":
        if lo is not None and (lo > u or (lo == u and lo_open)):
            return True
        if hi is not None and hi <= u:
            return False
        return None
    if hi is not None and (hi < u or (hi == u and hi_open)):
        return True
    if lo is not None and lo >= u:
        return False
    return None


def decide(v, val, w):
    """Truth of w given that v is val, or None."""
    if v is w:
        return val
    if val and excludes(v, w):
        return False
    if v.op in LINEAR and w.op in LINEAR:
        return lindecide(v, val, w)
    return None


def _prune(t, v, val=True):
    if t.op != "ite" and t.op not in THEORY:
        return t
    key = (id(t), id(v), val)
    r = _PR.get(key)
    if r is not None:
        return r
    if t.op != "ite":
        d = decide(v, val, t)
        r = t if d is None else (TRUE if d else FALSE)
    else:
        d = decide(v, val, t.args[0]) if t.args[0].op in THEORY else None
        if d is not None:
            r = _prune(t.args[1] if d else t.args[2], v, val)
        else:
            a, b = _prune(t.args[1], v, val), _prune(t.args[2], v, val)
            if a is t.args[1] and b is t.args[2]:
                r = t
            elif a is b:
                r = a
            elif a is TRUE and b is FALSE:
                r = t.args[0]
            else:
                r = mk("ite", t.args[0], a, b)
    _PR[key] = r
    return r


BOOL_OPS = {"gt0", "eq0", "eq", "is", "in", "truth", "isinst", "hasattr", "raised",
            "callable", "isnone", "anyof", "allof", "issub"}


def is_atom_bool(t):
    return t.op in BOOL_OPS


def is_bool(t):
    if t is TRUE or t is FALSE or t.op in BOOL_OPS:
        return True
    if t.op == "ite":
        return is_bool(t.args[1]) and is_bool(t.args[2])
    return False


def not_(c):
    return ite(c, FALSE, TRUE)


def and_(a, b):
    return ite(a, b, FALSE)


def or_(a, b):
    return ite(a, TRUE, b)


# ---------------------------------------------------------------- polynomials
MAXMONO = 80


def _mono_dict(t):
    """term -> dict{mono(tuple of (atom,exp)) : coeff}"""
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "poly":
        d = {}
        for m in t.args:
            d[m.args[1]] = m.args[0]
        return d
    if t.op == "mono":
        return {t.args[1]: t.args[0]}
    if t is TRUE:
        return {(): Fraction(1)}
    if t is FALSE:
        return {}
    return {((t, Fraction(1)),): Fraction(1)}


def _from_dict(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        return _single(m, c)
    ms = [mk("mono", c, m) for m, c in items]
    ms.sort(key=lambda t: t.dig)
    return mk("poly", *ms)


def _single(m, c):
    if not m:
        return num(c)
    if c == 1 and len(m) == 1 and m[0][1] == 1:
        return m[0][0]
    return mk("mono", c, m)


def add(a, b):
    if a.op == "num" and b.op == "num":
        return num(a.args[0] + b.args[0])
    if a is ZERO:
        return b if b.op != "const" or not isinstance(b.args[0], bool) else num(int(b.args[0]))
    if b is ZERO:
        return a if a.op != "const" or not isinstance(a.args[0], bool) else num(int(a.args[0]))
    d = dict(_mono_dict(a))
    for m, c in _mono_dict(b).items():
        d[m] = d.get(m, 0) + c
    return _from_dict(d)


def neg(a):
    return scale(a, -1)


def scale(a, k):
    return _from_dict({m: c * k for m, c in _mono_dict(a).items()})


def sub(a, b):
    return add(a, neg(b))


def _mulmono(m1, m2):
    d = {}
    for at, e in m1 + m2:
        d[at] = d.get(at, Fraction(0)) + e
    return tuple(sorted(((at, e) for at, e in d.items() if e != 0), key=lambda p: p[0].dig))


def mul(a, b):
    if a.op == "num" and b.op == "num":
        return num(a.args[0] * b.args[0])
    da, db = _mono_dict(a), _mono_dict(b)
    if len(da) * len(db) > MAXMONO:
        # keep the larger factor as an atom
        if len(da) >= len(db):
            da = {((a, Fraction(1)),): Fraction(1)}
        else:
            db = {((b, Fraction(1)),): Fraction(1)}
        if len(da) * len(db) > MAXMONO:
            if len(da) > 1:
                da = {((a, Fraction(1)),): Fraction(1)}
            if len(db) > 1:
                db = {((b, Fraction(1)),): Fraction(1)}
    d = {}
    for m1, c1 in da.items():
        for m2, c2 in db.items():
            m = _mulmono(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    # re-expand atoms that are polys with exponent 1 only if they came from cancellation
    return _from_dict(d)


def power(a, e):
    """a ** e with e a term."""
    if e.op == "num":
        k = e.args[0]
        if k == 1:
            return a
        if k == 0:
            return ONE
        if a.op == "num":
            v = a.args[0]
            if k.denominator == 1 and abs(k) <= 64 and not (v == 0 and k < 0):
                return num(v ** int(k))
        d = _mono_dict(a)
        if len(d) == 1:
            (m, c), = d.items()
            if k.denominator == 1 and abs(k) <= 64:
                return _from_dict({tuple((at, ex * k) for at, ex in m): Fraction(c) ** int(k)})
            if c == 1 and len(m) == 1 and m[0][1] != 2 and m[0][1] == 1:
                return _single(((m[0][0], k),), Fraction(1))
            return _single(((a, k),), Fraction(1))
        if k.denominator == 1 and 2 <= k <= 4 and len(d) ** int(k) <= MAXMONO:
            r = a
            for _ in range(int(k) - 1):
                r = mul(r, a)
            return r
        if k.denominator == 1 and k < 0 and len(d) > 1:
            # normalise content: leading coefficient 1
            lead = min(d.items(), key=lambda mc: mk("mono", Fraction(1), mc[0]).dig)[1]
            if lead != 1:
                base = _from_dict({m: c / lead for m, c in d.items()})
                return _from_dict({((base, k),): Fraction(lead) ** int(k)})
        return _single(((a, k),), Fraction(1))
    if is_const(e):
        return mk("pow", a, e)
    return mk("pow", a, e)


def div(a, b):
    if b is ZERO:
        return mk("div0", a)
    if a.op == "num" and b.op == "num":
        return num(a.args[0] / b.args[0])
    return mul(a, power(b, num(-1)))


def fdiv(a, b):
    if a.op == "num" and b.op == "num" and b.args[0] != 0:
        return num(a.args[0] // b.args[0])
    if b is ONE:
        return a
    d = _mono_dict(a)
    if d and all(c < 0 for m, c in d.items() if m) and any(m for m in d):
        # -(-n // b) on integers, b > 0
        return neg(fdiv(add(neg(a), sub(b, ONE)), b))
    return mk("fdiv", a, b)


def mod(a, b):
    if a.op == "num" and b.op == "num" and b.args[0] != 0:
        return num(a.args[0] % b.args[0])
    return mk("mod", a, b)


def _clear(d, limit=400):
    """Monomials of d times the polynomials in its denominators; None if too large."""
    for _ in range(12):
        den = {}
        for m in d:
            for at, e in m:
                if at.op == "poly" and e < 0 and e.denominator == 1:
                    den[at] = max(den.get(at, 0), -e)
        pos = any(at.op == "poly" and e > 0 and e.denominator == 1 for m in d for at, e in m)
        if not den and not pos:
            return d
        if den:
            at, k = min(den.items(), key=lambda p: p[0].dig)
        else:
            at, k = None, 0
        out = {}
        for m, c in d.items():
            rest, mult = [], []
            for a, e in m:
                if a is at:
                    e = e + k
                if a.op == "poly" and e > 0 and e.denominator == 1:
                    mult += [a] * int(e)
                    continue
                if e:
                    rest.append((a, e))
            if at is not None and not any(a is at for a, _ in m):
                mult += [at] * int(k)
            if len(mult) > 8:
                return None
            acc = {tuple(rest): c}
            for p in mult:
                nxt = {}
                for m1, c1 in acc.items():
                    for m2, c2 in _mono_dict(p).items():
                        q = _mulmono(m1, m2)
                        nxt[q] = nxt.get(q, 0) + c1 * c2
                acc = nxt
                if len(acc) > limit:
                    return None
            for q, c1 in acc.items():
                out[q] = out.get(q, 0) + c1
            if len(out) > limit:
                return None
        d = {q: c for q, c in out.items() if c != 0}
    return None


def rational_equal(a, b):
    """Equality as rational functions of the atoms: True, False, or None (too large)."""
    da, db = _mono_dict(a), _mono_dict(b)
    d = dict(da)
    for m, c in db.items():
        d[m] = d.get(m, 0) - c
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return True
    r = _clear(d)
    if r is None:
        return None
    return not r


# ---------------------------------------------------------------- comparisons
def gt(a, b):
    """a > b"""
    return gt0(sub(a, b))


def gt0(d):
    if d.op == "num":
        return TRUE if d.args[0] > 0 else FALSE
    # len(x) >= 1  <->  truth(x)
    md = _mono_dict(d)
    rest = {m: c for m, c in md.items() if m}
    k = md.get((), Fraction(0))
    if len(rest) == 1:
        (m, c), = rest.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "len":
            if c == 1 and -1 < k <= 0:
                return mk("truth", m[0][0].args[0])
            if c == 1 and k > 0:
                return TRUE
            if c == -1 and 0 < k <= 1:
                return not_(mk("truth", m[0][0].args[0]))
            if c == -1 and k <= 0:
                return FALSE
    return mk("gt0", d)


def ge(a, b):
    return not_(gt(b, a))


INTOPS = {"len", "fdiv", "mod", "ndim"}


def eq(a, b):
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x.op == "const":
            if y.op in ("const", "num", "tuple", "list", "lam", "obj", "dict"):
                if y.op == "const" and isinstance(x.args[0], bool) == isinstance(y.args[0], bool):
                    return FALSE
                if y.op == "num" and isinstance(x.args[0], bool):
                    return TRUE if int(x.args[0]) == y.args[0] else FALSE
                return FALSE
            if x is TRUE and is_bool(y):
                return y
            if x is FALSE and is_bool(y):
                return not_(y)
            return mk("eq", *sorted((a, b), key=lambda t: t.dig))
    if a.op == "tuple" and b.op == "tuple":
        if len(a.args) != len(b.args):
            return FALSE
        r = TRUE
        for x, y in zip(a.args, b.args):
            r = and_(r, eq(x, y))
        return r
    nonnum = ("tuple", "list", "dict", "set", "obj", "lam", "ext", "enum", "class", "slice", "dtype")
    if a.op in nonnum or b.op in nonnum:
        if a.op in ("enum", "ext", "class") and b.op == a.op:
            return FALSE
        return mk("eq", *sorted((a, b), key=lambda t: t.dig))
    d = sub(a, b)
    if d.op == "num":
        return TRUE if d.args[0] == 0 else FALSE
    md = _mono_dict(d)
    # sign normalisation
    lead = min(md.items(), key=lambda mc: mk("mono", Fraction(1), mc[0]).dig)[1]
    if lead != 1:
        d = _from_dict({m: c / lead for m, c in md.items()})
    if d.op == "len":
        return not_(mk("truth", d.args[0]))
    return mk("eq0", d)


# ---------------------------------------------------------------- generic traversal
REBUILD = {}


def rebuild(op, args):
    f = REBUILD.get(op)
    if f is not None:
        return f(*args)
    return mk(op, *args)


def _rb_poly(*ms):
    r = ZERO
    for m in ms:
        r = add(r, m)
    return r


def _rb_mono(c, m):
    r = num(c)
    for at, e in m:
        r = mul(r, power(at, num(e)))
    return r


REBUILD["poly"] = _rb_poly
REBUILD["mono"] = _rb_mono
REBUILD["ite"] = ite
REBUILD["gt0"] = gt0
REBUILD["eq0"] = lambda d: eq(d, ZERO)
REBUILD["eq"] = eq
REBUILD["fdiv"] = fdiv
REBUILD["mod"] = mod
REBUILD["pow"] = lambda a, e: power(a, e)


def map_term(t, f, memo):
    """Rebuild t bottom-up; f(t) may return a replacement or None."""
    r = memo.get(id(t))
    if r is not None:
        return r
    tick()
    r = f(t)
    if r is None:
        na = tuple(_map_arg(a, f, memo) for a in t.args)
        if all(x is y for x, y in zip(na, t.args)):
            r = t
        elif all(_same(x, y) for x, y in zip(na, t.args)):
            r = t
        else:
            old = CUR["loc"]
            CUR["loc"] = t.loc
            r = rebuild(t.op, na)
            CUR["loc"] = old
    memo[id(t)] = r
    return r


def _same(x, y):
    if x is y:
        return True
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return all(_same(a, b) for a, b in zip(x, y))
    return False


def _map_arg(a, f, memo):
    if isinstance(a, T):
        return map_term(a, f, memo)
    if isinstance(a, tuple):
        return tuple(_map_arg(b, f, memo) for b in a)
    return a


def subst(t, mapping):
    """mapping: {fv id: term}"""
    keys = frozenset(mapping)
    if not (t.fv & keys):
        return t

    def f(x):
        if x.op == "fv" and x.args[0] in mapping:
            return mapping[x.args[0]]
        if not (x.fv & keys):
            return x
        return None
    return map_term(t, f, {})


_FRESH = [0]


def fresh():
    _FRESH[0] += 1
    return mk("fv", _FRESH[0])


def lam(fvs, body, tag=""):
    """Close body over the fresh variables `fvs`; canonical names by height."""
    h = body.height + 1
    m = {v.args[0]: mk("bv", h, i) for i, v in enumerate(fvs)}
    b = subst(body, m)
    # rebuilding may lower the height; recompute once
    if b.height + 1 != h:
        h2 = b.height + 1
        b = _rename_bv(b, h, h2)
        h = h2
    return mk("lam", len(fvs), h, b)


def _rename_bv(b, h, h2):
    def f(x):
        if h not in x.bvs:
            return x
        if x.op == "bv" and x.args[0] == h:
            return mk("bv", h2, x.args[1])
        return None
    return map_term(b, f, {})


def apply_lam(l, args):
    n, h, b = l.args

    def f(x):
        if h not in x.bvs:
            return x
        if x.op == "bv" and x.args[0] == h:
            return args[x.args[1]]
        return None
    return map_term(b, f, {})


def _rb_lam(n, h, b):
    # body changed: restore canonical height
    if b.height + 1 == h:
        return mk("lam", n, h, b)
    fs = [fresh() for _ in range(n)]

    def f(x):
        if h not in x.bvs:
            return x
        if x.op == "bv" and x.args[0] == h:
            return fs[x.args[1]]
        return None
    return lam(fs, map_term(b, f, {}))


REBUILD["lam"] = _rb_lam


def subterms(t, seen=None):
    if seen is None:
        seen = {}
    stack = [t]
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen[id(x)] = x
        _push(x.args, stack)
    return seen


def _push(a, stack):
    for x in a:
        if isinstance(x, T):
            stack.append(x)
        elif isinstance(x, tuple):
            _push(x, stack)


def contains(t, pred):
    return any(pred(x) for x in subterms(t).values())


# ---------------------------------------------------------------- printing
def show(t, d=5):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, d) for x in t) + ")"
        return str(t)
    if t.op == "num":
        return str(t.args[0])
    if t.op == "const":
        return repr(t.args[0])
    if t.op == "sym":
        return t.args[0]
    if t.op == "fv":
        return "%%%d" % t.args[0]
    if t.op == "bv":
        return "$%d.%d" % t.args
    if d <= 0:
        return "…"
    s = lambda x: show(x, d - 1)
    a = t.args
    if t.op == "attr":
        return s(a[0]) + "." + a[1]
    if t.op == "idx":
        return s(a[0]) + "[" + s(a[1]) + "]"
    if t.op == "poly":
        return "(" + " + ".join(s(x) for x in a) + ")"
    if t.op == "mono":
        fs = [(s(x) + ("^%s" % e if e != 1 else "")) for x, e in a[1]]
        if a[0] != 1:
            fs.insert(0, str(a[0]))
        return "*".join(fs)
    if t.op == "ite":
        return "(%s ? %s : %s)" % (s(a[0]), s(a[1]), s(a[2]))
    if t.op == "call":
        fn = a[0] if isinstance(a[0], str) else s(a[0])
        ps = [s(x) for x in a[1]] + ["%s=%s" % (k, s(v)) for k, v in a[2]]
        return "%s(%s)" % (fn, ", ".join(ps))
    if t.op == "tuple":
        return "(" + ", ".join(s(x) for x in a) + ",)"
    if t.op == "list":
        return "[" + ", ".join(s(x) for x in a) + "]"
    if t.op == "lam":
        return "λ%d^%d. %s" % (a[0], a[1], s(a[2]))
    if t.op == "obj":
        return "%s{%s}" % (a[0], ", ".join("%s=%s" % (k, s(v)) for k, v in a[1]))
    return "%s(%s)" % (t.op, ", ".join(s(x) for x in a))
