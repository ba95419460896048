"""Decide whether two value terms denote the same function of the inputs.

equal digests  -> the same value for every input (PROVED).
otherwise      -> case split on the branch conditions, then align the two terms
                  and report the minimal sub-terms on which they disagree.
"""
from __future__ import annotations
import time
from . import terms as tm
from .ops import trace_order, ALL, bases, no_pass
from .terms import T, mk, map_term, subterms, apply_lam, fresh, TRUE, FALSE, ZERO


class Diff:
    __slots__ = ("a", "b", "why")

    def __init__(self, a, b, why=""):
        self.a, self.b, self.why = a, b, why


EXCLUSIVE = {}      # class name -> frozenset of its project superclasses (incl. itself)


def disjoint(a, b):
    """No value is an instance of both project classes."""
    pa, pb = EXCLUSIVE.get(a), EXCLUSIVE.get(b)
    if pa is None or pb is None:
        py = {"str", "int", "float", "dict", "list", "tuple", "bool"}
        if (a in py and pb is not None) or (b in py and pa is not None):
            return True
        return a in py and b in py and a != b and {a, b} != {"int", "bool"}
    return a not in pb and b not in pa


tm.DISJOINT[0] = disjoint


def assign(t, c, val):
    """t under the assumption c == val (and what follows from it)."""
    rep = TRUE if val else FALSE
    x0 = c.args[0] if c.op in ("isinst", "isnone", "truth") else None
    eqk = eqx = None
    lin = c.op in tm.LINEAR
    empty = c.args[0] if c.op == "truth" and not val else None
    if val and c.op == "eq":
        for k, x in ((c.args[0], c.args[1]), (c.args[1], c.args[0])):
            if k.op in ("const", "enum") and x.op not in ("const", "enum"):
                eqk, eqx = k, x

    bit = 0
    for y in bases_of(c):
        bit |= 1 << (int.from_bytes(y.dig[:2], "little") & 1023)

    def f(x):
        if x.sig & bit != bit:
            return x
        if x is c:
            return rep
        if val and c.op == "isinst":
            if x.op == "isinst" and x.args[0] is x0 and x.args[1].op == "const" and c.args[1].op == "const":
                if disjoint(x.args[1].args[0], c.args[1].args[0]):
                    return FALSE
                if x.args[1].args[0] in EXCLUSIVE.get(c.args[1].args[0], ()):
                    return TRUE
            if x.op == "isnone" and x.args[0] is x0:
                return FALSE
        if val and c.op == "isnone":
            if x.op in ("isinst", "truth") and x.args[0] is x0:
                return FALSE
            if x is x0:
                return tm.NONE
        if val and c.op == "truth" and x.op == "isnone" and x.args[0] is x0:
            return FALSE
        if empty is not None:
            if x.op == "len" and x.args[0] is empty:
                return ZERO
            if x.op in ("seq", "flat", "loop", "sumover", "last") and passes(x, empty):
                r = mk("list") if x.op in ("seq", "flat") else no_pass(x.args[0], x.args[2], x.args[4:]) if x.op == "loop" \
                    else ZERO if x.op == "sumover" else x.args[2]
                if r is not None:
                    return map_term(r, f, memo)
        if lin and x.op in tm.LINEAR:
            d = tm.lindecide(c, val, x)
            if d is not None:
                return TRUE if d else FALSE
        if eqk is not None:
            if x.op == "isnone" and x.args[0] is eqx:
                return FALSE
            if x is eqx:
                return eqk
        return None
    memo = {}
    return map_term(t, f, memo)


def bases_of(c):
    """Terms every term about which c says something contains."""
    if c.op in ("isinst", "isnone", "truth"):
        return c.args[:1]
    if c.op in tm.LINEAR:
        f = tm.linform(c)
        if f:
            return [a.args[0] if a.op == "len" else a for m, _ in f[0] for a, _ in m]
        return [c]
    if c.op == "eq":
        return [x for x in c.args if x.op not in ("const", "enum")]
    return [c]


def passes(x, e):
    """The loop x makes one pass per element of e."""
    n = x.args[1] if x.op == "loop" else x.args[0]
    if n.op == "len" and n.args[0] is e:
        return True
    return n is ALL and any(b is e for b in bases(x.args[3] if x.op == "loop" else x.args[1]))


def conds(a, b, limit=400):
    """Branch conditions of a and b, closed at this level, in a fixed order."""
    out = {}
    for root in (a, b):
        if root is None:
            continue
        seen = set()
        stack = [root]
        n = 0
        while stack and n < 40000:
            x = stack.pop()
            if id(x) in seen:
                continue
            seen.add(id(x))
            n += 1
            if x.op == "ite" and x.args[0].op != "const":
                c = x.args[0]
                if not has_bv(c):
                    out.setdefault(id(c), c)
                for y in x.args[1:]:
                    if y.op in tm.BOOL_OPS and not has_bv(y):
                        out.setdefault(id(y), y)
            elif x.op == "when" and x.args[0].op in tm.BOOL_OPS and not has_bv(x.args[0]):
                out.setdefault(id(x.args[0]), x.args[0])
            tm._push(x.args, stack)
            if len(out) > limit:
                break
    return sorted(out.values(), key=lambda c: (c.size, c.dig))


def has_bv(t):
    """t has a bound variable not bound inside t."""
    return bool(t.bvs)


_KEEP = []


COMMUT = {"min", "max", "band", "bor", "vdot", "set_", "minlen", "is"}


BOT = mk("bottom")


def restrict(l, g):
    """Effects of the list l that can happen under condition g."""
    if l.op != "list" or g is TRUE:
        return l
    out = []
    for x in l.args:
        c, y = (x.args[0], x.args[1]) if x.op == "when" else (TRUE, x)
        c = tm.and_(c, g)
        if c is not FALSE:
            if y.op == "setattr" and c is not TRUE and isinstance(y.args[-1], tm.T) and y.args[-1].op != "lam":
                # what is stored matters only where the store happens
                y = mk("setattr", *y.args[:-1], tm.ite(c, y.args[-1], BOT))
            out.append(y if c is TRUE else mk("when", c, y))
    return mk("list", *trace_order(out))


def raise_cond(e):
    """When the effects e raise."""
    if e.op in ("list", "cat"):
        r = FALSE
        for x in e.args:
            r = tm.or_(r, raise_cond(x))
        return r
    if e.op == "ite":
        return tm.ite(e.args[0], raise_cond(e.args[1]), raise_cond(e.args[2]))
    if e.op == "when":
        return tm.and_(e.args[0], raise_cond(e.args[1]))
    return e.args[0] if e.op == "raise_if" else FALSE


def raising_loops(t):
    """Loops over an index that end in an exception: (number of passes, bases, when)."""
    out = {}
    if t.op != "eff" or t.args[1].op != "effs" or t.args[1].args[2].op != "list":
        return out
    for x in t.args[1].args[2].args:
        x = x.args[1] if x.op == "when" else x
        if x.op == "loop" and x.args[0] == "flat" and x.args[2] == () and x.args[3].args[0] == 1 and x.args[3].args[2].op == "tuple":
            i = fresh()
            c = raise_cond(apply_lam(x.args[3], [i]).args[-1])
            if c is not FALSE:
                l = tm.lam([i], c)
                out[(x.args[1].dig, l.dig)] = (x.args[1], {z.dig for z in bases(x.args[3])}, l)
    return out


def past_raises(a, b):
    """What a loop body computes on a pass that raises, on both sides, is never used."""
    ra, rb = raising_loops(a), raising_loops(b)
    common = [ra[k] for k in ra if k in rb]
    if not common:
        return a, b

    def f(x):
        if x.op in ("seq", "flat", "loop", "sumover"):
            n, l = (x.args[1], x.args[3]) if x.op == "loop" else (x.args[0], x.args[1])
            for m, bs, c in common:
                if m is not n or (n is ALL and not bs <= {z.dig for z in bases(l)}):
                    continue
                fs = [fresh() for _ in range(l.args[0])]
                body, g = apply_lam(l, fs), apply_lam(c, fs[:1])
                if x.op == "loop" and body.op == "tuple" and body.args[0].op == "tuple":
                    body = mk("tuple", mk("tuple", *[tm.ite(g, BOT, z) for z in body.args[0].args]),
                              *[tm.ite(g, FALSE if tm.is_bool(z) else BOT, z) for z in body.args[1:]])
                else:
                    body = tm.ite(g, BOT, body)
                l2 = tm.lam(fs, body)
                return mk("loop", *x.args[:3], l2, *x.args[4:]) if x.op == "loop" else mk(x.op, n, l2, *x.args[2:])
        return None

    def go(t):
        return mk("eff", map_term(t.args[0], f, {}), t.args[1],
                  *[mk("write", w.args[0], map_term(w.args[1], f, {})) if w.op == "write" else w for w in t.args[2:]])
    return go(a), go(b)


def by_label(xs, ys):
    """Writes of the two sides, paired by what is written."""
    left, out, rest = list(ys), [], []
    for x in xs:
        for y in left:
            if x.op == y.op == "write" and x.args[0] == y.args[0]:
                out.append((x, y))
                left.remove(y)
                break
        else:
            rest.append(x)
    return out + list(zip(rest, left))


class Budget(Exception):
    pass


def in_step(a, b):
    """b with the mapped arrays in the order in which a maps theirs.

    The order of the arrays of a map is that of their digests, which says nothing
    about which array of one side plays the part of which array of the other.
    """
    ka, kb = list(zip(a.args[1], a.args[2])), list(zip(b.args[1], b.args[2]))
    if len(ka) != len(kb) or len(ka) < 2:
        return b
    left = list(range(len(kb)))
    order = [None] * len(ka)
    rules = (lambda p, q: p[0] is q[0] and p[1] is q[1],
             lambda p, q: p[1] is q[1],
             lambda p, q: p[0] is q[0] and p[1].op == q[1].op == "idx" and p[1].args[0] is q[1].args[0],
             lambda p, q: p[0] is q[0] and p[1].op == q[1].op and p[1].args[:1] == q[1].args[:1],
             lambda p, q: p[0] is q[0] and p[1].op == q[1].op,
             lambda p, q: True)
    for rule in rules:
        for i, x in enumerate(ka):
            if order[i] is None:
                hit = [j for j in left if rule(x, kb[j])]
                if hit:
                    order[i] = min(hit, key=lambda j: abs(kb[j][1].size - x[1].size))
                    left.remove(order[i])
    if order == list(range(len(kb))):
        return b
    fs = [fresh() for _ in kb]
    l = tm.lam([fs[j] for j in order], apply_lam(b.args[3], fs))
    return mk("vmap", b.args[0], tuple(kb[j][0] for j in order), tuple(kb[j][1] for j in order), l)


class Comparer:
    def __init__(self, split_depth=7, work=60000, first=45.0, total=110.0):
        self.first, self.total = first, total
        self.split_depth = split_depth
        self.work = work
        self.splits = 0
        self.local = True
        self.memo = {}
        self.bound = {}

    # -------------------------------------------------------------- entry
    def diffs(self, a, b):
        """[] if proved equal, otherwise the list of minimal disagreements."""
        if a is b:
            return []
        self.count = 0
        t0 = time.process_time()
        self.until = t0 + self.first
        d = None
        try:
            d = self.cmp_split(a, b, self.split_depth)
            if not d:
                return d
            a2, b2 = past_raises(a, b)
            if a2 is not a or b2 is not b:
                a, b = a2, b2
                d = self.cmp_split(a, b, self.split_depth)
                if not d:
                    return d
        except Budget:
            pass
        for local, until in ((False, 0.5), (True, 1.0)):
            self.count, self.memo, self.local = 0, {}, local
            self.until = t0 + until * self.total
            try:
                r = self.refute(a, b, 60)
                return d if r and d else r
            except Budget:
                pass
        return [Diff(a, b, "budget")]

    def refute(self, a, b, depth):
        """Depth-first search for an assignment of the branch conditions under
        which a and b disagree; [] if they agree under all of them."""
        if a is b:
            return []
        key = ("r", id(a), id(b))
        r = self.memo.get(key)
        if r is not None:
            return r
        self.tick()
        _KEEP.append((a, b))
        if not self.local:
            c = self.pick(a, b)
            if c is None or depth <= 0:
                d = self.align(a, b, -1)
            else:
                d = []
                for v in (True, False):
                    d = self.refute(assign(a, c, v), assign(b, c, v), depth - 1)
                    if d:
                        break
            self.memo[key] = d
            return d
        d = self.align(a, b, -1)
        if d and depth > 0:
            cs = {}
            for x in d:
                for k in conds(x.a, x.b, 60):
                    if not (k.fv - (a.fv | b.fv)):
                        cs[id(k)] = k
            if cs:
                c = min(cs.values(), key=lambda c: (c.size, c.dig))
                for v in (True, False):
                    d = self.refute(assign(a, c, v), assign(b, c, v), depth - 1)
                    if d:
                        break
        self.memo[key] = d
        return d

    def pick(self, a, b):
        """A branch condition of one term only, else of both; small ones first."""
        ca = {id(c): c for c in conds(a, None) if not (c.fv - (a.fv | b.fv))}
        cb = {id(c): c for c in conds(b, None) if not (c.fv - (a.fv | b.fv))}
        one = [c for k, c in ca.items() if k not in cb] + [c for k, c in cb.items() if k not in ca]
        cs = one or list(ca.values())
        return min(cs, key=lambda c: (c.size, c.dig)) if cs else None

    def tick(self):
        self.count += 1
        if self.count > self.work or (self.count % 16 == 0 and time.process_time() > self.until):
            raise Budget()

    def cmp_split(self, a, b, depth):
        if a is b:
            return []
        if depth < 0:
            return self.refute(a, b, 60)
        key = (id(a), id(b), depth)
        r = self.memo.get(key)
        if r is not None:
            return r
        d = self.align(a, b, depth)
        if d and depth > 0:
            # conditions occurring in the disagreeing parts only
            cs = {}
            for x in d:
                for c in conds(x.a, x.b, 60):
                    if not has_bv(c) and not (c.fv - (a.fv | b.fv)):
                        cs[id(c)] = c
            cs = sorted(cs.values(), key=lambda c: (c.size, c.dig))
            for c in cs[:1]:
                self.splits += 1
                self.tick()
                d1 = self.cmp_split(assign(a, c, True), assign(b, c, True), depth - 1)
                d0 = self.cmp_split(assign(a, c, False), assign(b, c, False), depth - 1)
                d2 = merge(d1, d0)
                if len(d2) <= len(d) or not d2:
                    d = d2
        self.memo[key] = d
        return d

    # -------------------------------------------------------------- alignment
    def align(self, a, b, depth):
        if a is b:
            return []
        self.tick()
        if a.op == "lam" and b.op == "lam" and a.args[0] == b.args[0]:
            fs = self.bound.get((id(a), id(b)))
            if fs is None:
                fs = self.bound[(id(a), id(b))] = [fresh() for _ in range(a.args[0])]
                _KEEP.append((a, b))
            return self.cmp_split(apply_lam(a, fs), apply_lam(b, fs), depth)
        if a.op in ("poly", "mono") or b.op in ("poly", "mono"):
            return self.align_poly(a, b, depth)
        if a.op == "ite" and b.op == "ite":
            if a.args[0] is b.args[0]:
                c, out = a.args[0], []
                for k, v in ((1, True), (2, False)):
                    x, y = a.args[k], b.args[k]
                    if x is not y:
                        r = self.align(x, y, depth)
                        if r:
                            # the condition holds (or not) throughout the branch
                            x2, y2 = assign(x, c, v), assign(y, c, v)
                            if x2 is not x or y2 is not y:
                                r = self.align(x2, y2, depth)
                        out = merge(out, r)
                return out
            return [Diff(a, b)]
        if a.op != b.op or len(a.args) != len(b.args):
            return [Diff(a, b)]
        if a.op in ("num", "const", "sym", "fv", "bv", "ext", "global", "unk"):
            return [Diff(a, b)]
        if a.op == "eff" and b.op == "eff" and len(a.args) == len(b.args):
            out = []
            ea, eb = a.args[1], b.args[1]
            if ea is not eb:
                out = merge(out, self.align_arg(ea.args[0], eb.args[0], depth))
                if ea.args[1] != eb.args[1] and ea.args[0] is not FALSE and eb.args[0] is not FALSE:
                    out = merge(out, [Diff(mk("kinds", ea.args[1]), mk("kinds", eb.args[1]), "exception kinds")])
                la, lb = ea.args[2], eb.args[2]
                if la is not lb:
                    g = tm.not_(tm.and_(ea.args[0], eb.args[0]))
                    la, lb = restrict(la, g), restrict(lb, g)
                    if la is not lb:
                        r = self.align(la, lb, depth)
                        out = merge(out, r)
            g = tm.and_(a.args[1].args[0], b.args[1].args[0])
            for x, y in by_label(a.args[2:], b.args[2:]):
                if x is not y and g is not FALSE and x.op == y.op == "write" and x.args[0] == y.args[0]:
                    x, y = (mk("write", z.args[0], tm.ite(g, BOT, z.args[1])) for z in (x, y))
                r = self.align_arg(x, y, depth)
                out = merge(out, [Diff(a, b, "effects")] if r is None else r)
            va, vb = a.args[0], b.args[0]
            if va is not vb:
                ga, gb = a.args[1].args[0], b.args[1].args[0]
                g = tm.and_(ga, gb)
                if g is not FALSE:
                    # the value is irrelevant where both raise
                    va, vb = tm.ite(g, BOT, va), tm.ite(g, BOT, vb)
                out = merge(out, self.align(va, vb, depth))
            return out
        if a.op == "effs":
            return self.align_effs(a, b, depth)
        if a.op in ("gt0", "eq0"):
            if tm.rational_equal(a.args[0], b.args[0]):
                return []
            return [Diff(a, b)]
        if a.op == "vmap":
            b = in_step(a, b)
        if a.op in COMMUT:
            ra = [x for x in a.args if x not in b.args]
            rb = [x for x in b.args if x not in a.args]
            if len(ra) == 1 and len(rb) == 1:
                return self.align(ra[0], rb[0], depth)
            return [Diff(a, b)]
        out = []
        for x, y in zip(a.args, b.args):
            r = self.align_arg(x, y, depth)
            if r is None:
                return [Diff(a, b)]
            out = merge(out, r)
        if len(out) > 1 and any(x.a.size + x.b.size > 0.8 * (a.size + b.size) for x in out):
            pass
        return out

    def align_arg(self, x, y, depth):
        if isinstance(x, T) and isinstance(y, T):
            return self.align(x, y, depth)
        if isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y):
                return None
            out = []
            for p, q in zip(x, y):
                r = self.align_arg(p, q, depth)
                if r is None:
                    return None
                out = merge(out, r)
            return out
        if type(x) is type(y) and x == y:
            return []
        return None

    def align_poly(self, a, b, depth):
        da, db = dict(tm._mono_dict(a)), dict(tm._mono_dict(b))
        for m in list(da):
            if m in db and da[m] == db[m]:
                del da[m], db[m]
        if not da and not db:
            return []
        if tm.rational_equal(tm._from_dict(da), tm._from_dict(db)):
            return []
        if len(da) == 1 and len(db) == 1:
            (m, c), = da.items()
            (n, e), = db.items()
            if c == e:
                fa, fb = list(m), list(n)
                for p in list(fa):
                    for q in list(fb):
                        if p[0] is q[0] and p[1] == q[1]:
                            fa.remove(p)
                            fb.remove(q)
                            break
                if len(fa) == 1 and len(fb) == 1 and fa[0][1] == fb[0][1]:
                    return self.align(fa[0][0], fb[0][0], depth)
                return [Diff(fac(fa), fac(fb), "product")]
            return [Diff(tm._from_dict(da), tm._from_dict(db), "coefficient")]
        # pair monomials that align to a small difference
        if len(da) == len(db) and len(da) <= 12:
            out, used = [], set()
            for m, c in da.items():
                best = None
                for n, e in db.items():
                    if n in used or e != c or len(n) != len(m):
                        continue
                    fa = [p for p in m if p not in n]
                    fb = [p for p in n if p not in m]
                    if len(fa) == 1 and len(fb) == 1 and fa[0][1] == fb[0][1] and fa[0][0].op == fb[0][0].op:
                        r = self.align(fa[0][0], fb[0][0], depth)
                        if best is None or len(r) < len(best[1]):
                            best = (n, r)
                if best is None:
                    break
                used.add(best[0])
                out = merge(out, best[1])
            else:
                return out
        return [Diff(tm._from_dict(da), tm._from_dict(db), "sum")]

    def align_effs(self, a, b, depth):
        out = []
        for x, y in zip(a.args, b.args):
            r = self.align_arg(x, y, depth)
            if r is None:
                r = [Diff(a, b, "effects")]
            out = merge(out, r)
        return out


def fac(fs):
    r = tm.ONE
    for at, e in fs:
        r = tm.mul(r, tm.power(at, tm.num(e)))
    return r


def merge(x, y):
    if not y:
        return x
    seen = {(id(d.a), id(d.b)) for d in x}
    out = list(x)
    for d in y:
        if (id(d.a), id(d.b)) not in seen:
            seen.add((id(d.a), id(d.b)))
            out.append(d)
    return out
