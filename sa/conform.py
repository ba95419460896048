"""Conformance of the repository to the reference definitions, entry by entry."""
from __future__ import annotations
import ast, json, os, sys, time, threading, multiprocessing as mp
from . import terms as tm
from .terms import T, mk, subterms
from .program import Program
from .values import ClassV, FuncV, ModV
from .interp import Interp, Undecided, EFF
from .entry import HINTS, all_entries, eval_entry, signature, module_term
from . import compare
from .compare import Comparer, Diff
from .policy import judge

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = os.path.join(HERE, "specs", "ref")
SUMM = os.path.join(HERE, "specs", "summaries.json")


BUDGET = 130.0


def is_public(q):
    parts = q.split(".")[1:]
    for i, p in enumerate(parts):
        if p.startswith("_") and not (p.startswith("__") and p.endswith("__")):
            if p == "_callback_utils":
                continue
            return False
    return True


class Side:
    def __init__(self, root):
        self.prog = Program(root)
        self.interp = {}

    def I(self, opaque):
        key = tuple(sorted(opaque))
        r = self.interp.get(key)
        if r is None:
            # every interpreter owns its module state
            for m in self.prog.modules.values():
                m.env, m.state = {}, "new"
            r = Interp(self.prog, hints=HINTS, opaque=opaque)
            self.interp = {key: r}
        return r


def class_term(I, q):
    c = I.lookup_qual(q)
    if not isinstance(c, ClassV):
        return None
    st = I.new_state()
    st.set(EFF, ())
    flds = []
    for f in c.all_fields():
        d = None
        if f[1] is not None:
            try:
                d = I.field_default(c, f, st)
            except Undecided:
                d = None
        meta = ()
        if isinstance(f[1], ast.Call):
            meta = tuple(sorted((kw.arg, ast.unparse(kw.value)) for kw in f[1].keywords
                                if kw.arg in ("static", "init", "metadata", "compare", "hash")))
        flds.append((f[0], tm.mk("const", "<required>") if d is None else I.R(d, st), meta))
    decs = tuple(sorted(ast.unparse(d).split(".")[-1] for d in c.node.decorator_list))
    bases = tuple(getattr(b, "name", str(b)) if not isinstance(b, T) else tm.show(b, 3) for b in c.bases)
    attrs = []
    for k, v in sorted(c.attrs.items()):
        if isinstance(v, T) and not k.startswith("__"):
            attrs.append((k, v))
    return mk("classdef", decs, bases, tuple(flds), tuple(attrs))


def const_term(I, q):
    v = I.lookup_qual(q)
    if v is None:
        return None
    st = I.new_state()
    st.set(EFF, ())
    return I.R(v, st)


def list_entries(I):
    out = [(q, "func") for q, _ in all_entries(I)]
    for m in I.prog.modules.values():
        I.module(m.name)
        out.append((m.name + ".<module>", "module"))
        for s in m.tree.body:
            if isinstance(s, ast.ClassDef):
                out.append((m.name + "." + s.name, "class"))
            elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                tg = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in tg:
                    if isinstance(t, ast.Name) and t.id not in m.mutated_globals and not t.id.startswith("__"):
                        out.append((m.name + "." + t.id, "const"))
    return out


def used_calls(t, names):
    return sorted({x.args[0] for x in subterms(t).values()
                   if x.op == "call" and isinstance(x.args[0], str) and x.args[0] in names})


class Ctx:
    ref = None
    repo = None
    summ = None


def load(repo, ref=REF):
    Ctx.ref, Ctx.repo = Side(ref), Side(repo)
    Ctx.summ = json.load(open(SUMM))
    fill_classes(Ctx.ref.prog)


def fill_classes(prog):
    """Class hierarchy of the project, by simple name (ambiguous names dropped)."""
    bases, dup = {}, set()
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ClassDef):
                if n.name in bases:
                    dup.add(n.name)
                bases[n.name] = [ast.unparse(b).split(".")[-1] for b in n.bases]
    for n in dup:
        bases.pop(n)

    def up(n, seen):
        if n in seen:
            return seen
        seen.add(n)
        for b in bases.get(n, ()):
            up(b, seen)
        return seen
    for n in bases:
        compare.EXCLUSIVE[n] = frozenset(up(n, set()))


def term_of(side, q, kind, opaque, names):
    I = side.I(opaque)
    if kind == "class":
        return class_term(I, q)
    if kind == "const":
        return const_term(I, q)
    if kind == "module":
        return module_term(I, q[:-len(".<module>")])
    return eval_entry(I, q, names)


def sig_diff(q):
    """Differences of the calling convention: parameters the reference promises."""
    a, b = signature(Ctx.ref.I({}), q), signature(Ctx.repo.I({}), q)
    return a, b


RANK = {"same": 0, "weak": 1, "undecided": 2, "diff": 3}


def settled(job):
    """The verdict on an entry; a difference has to be one under other names too.

    Bound variables are numbered as they are met, and the order of commutative
    arguments follows the numbers.  A disagreement that comes and goes with the
    numbering says something about the pairing, not about the code.
    """
    r = run_entry(job)
    for n in (3, 37, 411):
        if r["status"] != "diff":
            break
        for _ in range(n):
            tm.fresh()
        o = run_entry(job)
        if RANK.get(o["status"], 3) < 3:
            r = o
    return r


def run_entry(job):
    q, kind, drop, publ = job
    opaque = {k: v for k, v in Ctx.summ.items() if k not in drop}
    res = {"q": q, "kind": kind, "status": None, "calls": [], "note": "", "diffs": [], "size": 0,
           "loc": None, "stmts": 0, "funcs": []}
    t0 = time.time()
    tm.LIMIT["until"] = time.process_time() + BUDGET
    try:
        Ir = Ctx.repo.I(opaque)
        If = Ctx.ref.I(opaque)
        if kind == "module":
            if q[:-len(".<module>")] not in Ctx.repo.prog.modules:
                res["status"] = "missing"
                return res
        elif If.lookup_qual(q) is None:
            res["status"] = "same"
            return res
        elif Ir.lookup_qual(q) is None:
            res["status"] = "missing"
            return res
        names = None
        sa = sb = None
        if kind == "func":
            sa, sb = signature(If, q), signature(Ir, q)
            names = [p[0] for p in sa] if sa is not None else None
        Ir.analysed = {}
        s0 = Ir.stmts
        a = term_of(Ctx.ref, q, kind, opaque, names)
        b = term_of(Ctx.repo, q, kind, opaque, names)
        res["size"] = len(subterms(b))
        res["stmts"] = Ir.stmts - s0
        res["funcs"] = sorted(Ir.analysed.items())
        ca, cb = used_calls(a, opaque), used_calls(b, opaque)
        res["calls"] = sorted(set(ca) | set(cb))
        res["samecalls"] = ca == cb
        res["oneside"] = sorted(set(ca) ^ set(cb))
        sd = []
        if sa is not None and sb is not None:
            pb = {p[0]: p for p in sb}
            same_names = [p[0] for p in sa] == [p[0] for p in sb]
            for j, p in enumerate(sa):
                o = pb.get(p[0])
                if o is None and len(sa) == len(sb):
                    o = sb[j]
                if o is None:
                    sd.append(Diff(tm.sym("parameter:" + p[0]), tm.sym("parameter:<absent>"), "signature"))
                elif p[1] is not o[1] and not (p[1] is None):
                    sd.append(Diff(p[1], o[1] if o[1] is not None else tm.sym("<required>"), "default of " + p[0]))
        d = []
        if a is not b:
            d = Comparer().diffs(a, b)
        d = sd + d
        if not d:
            res["status"] = "same"
        else:
            v, why = judge(d, a, b)
            res["status"] = v
            res["note"] = why
            for x in d[:6]:
                res["diffs"].append({"reference": tm.show(x.a, 7)[:600], "found": tm.show(x.b, 7)[:600],
                                     "why": x.why, "at": loc_of(x.b, Ctx.repo.prog.repo)})
            cs = set()
            for x in d[:6]:
                cs |= set(used_calls(x.a, opaque)) | set(used_calls(x.b, opaque))
            res["diffcalls"] = sorted(cs)
    except Undecided as e:
        res["status"], res["note"] = "undecided", str(e)[:200]
    except tm.OutOfTime:
        res["status"], res["note"] = "undecided", "time budget"
        Ctx.ref.interp, Ctx.repo.interp = {}, {}
    except RecursionError:
        res["status"], res["note"] = "undecided", "recursion"
    except Exception as e:                      # an unsupported construct is not a verdict
        res["status"], res["note"] = "undecided", "%s: %s" % (type(e).__name__, str(e)[:160])
    res["t"] = time.time() - t0
    return res


def loc_of(t, root):
    best = None
    stack, n = [t], 0
    seen = set()
    while stack and n < 2000:
        x = stack.pop(0)
        if id(x) in seen:
            continue
        seen.add(id(x))
        n += 1
        if x.loc and root in x.loc:
            return x.loc.replace(root + "/", "")
        tm._push(x.args, stack)
    return best


def _worker_init():
    sys.setrecursionlimit(60000)
    threading.stack_size(512 * 1024 * 1024)


def _threaded(job):
    out = {}

    def go():
        out["r"] = settled(job)
    th = threading.Thread(target=go)
    th.start()
    th.join()
    if "r" not in out:
        return {"q": job[0], "kind": job[1], "status": "undecided", "note": "crash", "calls": [], "diffs": [],
                "size": 0, "stmts": 0, "funcs": [], "loc": None}
    return out["r"]


def pool_map(jobs, procs=None):
    procs = procs or min(8, os.cpu_count() or 4)
    if not jobs:
        return []
    with mp.get_context("fork").Pool(procs, initializer=_worker_init) as P:
        return P.map(_threaded, jobs, chunksize=1)


def run(repo="/repo", ref=REF, only=None, procs=None, log=None, deep=None):
    """-> {q: result} for every reference entry (or those in `only`)."""
    load(repo, ref)
    I = Ctx.ref.I(Ctx.summ)
    ents = list_entries(I)
    if only is not None:
        ents = [e for e in ents if only(e[0])]
    order = {q: i for i, (q, _) in enumerate(ents)}
    kinds = dict(ents)
    start = time.time()
    Ctx.ref.interp, Ctx.repo.interp = {}, {}
    Ctx.ref.I(Ctx.summ), Ctx.repo.I(Ctx.summ)
    heavy = {"feax.solver.create_solver": 0}
    jobs = sorted(((q, k, (), None) for q, k in ents), key=lambda j: heavy.get(j[0], 1))
    R = {r["q"]: r for r in pool_map(jobs, procs)}
    # functions the repository no longer has are inlined on both sides
    rounds = 0
    drop = set()
    # both sides call the same functions, and each of them is proved unchanged
    unchanged = lambda old, names: all(R[c]["status"] == "same" for c in set(names) | set(old["calls"]) if c in R)
    while rounds < 4:
        rounds += 1
        new = set()
        for q, r in R.items():
            if q in drop or q not in Ctx.summ:
                continue
            if r["status"] != "same" and not is_public(q):
                new.add(q)
        # callees named in a disagreement
        redo = {}
        for q, r in R.items():
            if r["status"] in ("same",):
                base = set(r["calls"]) & new
                if base:
                    redo[q] = base
            elif r["status"] in ("diff", "weak"):
                base = (set(r["calls"]) & (new | drop)) | set(r.get("diffcalls", ()))
                base -= set(r.get("dropped", ()))
                if base:
                    redo[q] = base
        drop |= new
        if log:
            log("round %d: redo %d (dropped %s)" % (rounds, len(redo), sorted(new)[:8]))
        if not redo:
            break
        if time.time() - start > LIMIT:
            for q, base in redo.items():
                r = R[q]
                if r["status"] == "diff" and not (r["samecalls"] and all(R[c]["status"] == "same" for c in base if c in R)):
                    r["status"], r["note"] = "weak", "no time to refine the comparison"
            break
        jobs = []
        for q, base in redo.items():
            d = tuple(sorted(set(R[q].get("dropped", ())) | base))
            jobs.append((q, kinds[q], d, None))
        got = list(zip(pool_map(jobs, procs), jobs))
        # a comparison that ran over its budget is tried again with only the callees one side uses inlined
        fewer = {}
        last = {j[0]: (R[j[0]], set(R[j[0]].get("dropped", ()))) for r, j in got
                if over(r) and R[j[0]]["status"] == "diff" and not R[j[0]]["samecalls"]}
        for _ in range(8):
            if time.time() - start > LIMIT:
                break
            jobs2 = []
            for q, (r, d) in last.items():
                if r["status"] == "diff" and not r["samecalls"]:
                    d |= set(r["oneside"])
                    jobs2.append((q, kinds[q], tuple(sorted(d)), None))
            if not jobs2:
                break
            for r in pool_map(jobs2, procs):
                last[r["q"]] = (r, last[r["q"]][1])
        fewer = {q: r for q, (r, d) in last.items()}
        for r, j in got:
            old = R[r["q"]]
            f = fewer.get(r["q"])
            if f is not None and (f["status"] == "same" or (f["status"] == "diff" and f["samecalls"])):
                r = f
            r["dropped"] = j[2]
            if old["status"] == "same":
                # equal with the callee summarised; the inlined comparison can only refine the callee's verdict
                r2 = dict(old)
                r2["dropped"] = j[2]
                r2["inlined"] = r["status"]
                r2["inlined_res"] = r
                R[r["q"]] = r2
            elif r["status"] == "same":
                R[r["q"]] = r
            elif r["status"] == "undecided" or (r["status"] == "weak" and old["status"] == "diff" and old["samecalls"]
                                                 and (r["note"] == "comparison budget" or unchanged(old, j[2]))):
                old["dropped"] = tuple(sorted(set(old.get("dropped", ())) | set(j[2])))
            elif over(r) and old.get("best"):
                R[r["q"]] = dict(old["best"], dropped=tuple(sorted(set(old.get("dropped", ())) | set(j[2]))), best=None)
            else:
                r["best"] = dict(old, best=None) if old["status"] == "diff" and old["samecalls"] else old.get("best")
                r["first"] = old.get("first", old["diffs"])
                r["calls"] = sorted(set(r["calls"]) | set(old["calls"]))
                R[r["q"]] = r
    if deep is not None:
        # thorough tier: the same comparison with every summarised callee inlined
        jobs = [(q, kinds[q], tuple(sorted(Ctx.summ)), None) for q, r in R.items() if deep(q) and r["status"] == "same" and r["calls"]]
        for r, j in zip(pool_map(jobs, procs), jobs):
            R[r["q"]]["deep"] = r["status"]
            R[r["q"]]["deep_size"] = r["size"]
    return R


LIMIT = 300.0       # seconds after which comparisons are no longer refined


def over(r):
    return r["status"] == "undecided" or (r["status"] == "weak" and r["note"] == "comparison budget")


def findings(R):
    """Entries whose behaviour differs from the reference, after discharging
    private helpers whose every caller is proved unchanged with them inlined."""
    out, und = [], []
    callers = {}
    for q, r in R.items():
        for c in r["calls"]:
            callers.setdefault(c, set()).add(q)
    for q, r in R.items():
        s = r["status"]
        if s == "same":
            continue
        if s == "undecided":
            und.append(r)
            continue
        if is_public(q):
            if s in ("diff", "missing"):
                out.append(r)
            else:
                und.append(r)
            continue
        if r["kind"] == "const" or s == "missing":
            continue            # value flows into the functions using it
        cs = callers.get(q, set()) - {q}
        ok = True
        for c in cs:
            rc = R[c]
            if rc["status"] == "same" and rc.get("inlined", None) in ("diff", "undecided", "weak"):
                ok = False
            elif rc["status"] in ("diff", "weak"):
                ok = ok and q in rc.get("dropped", ())
        if q not in Ctx.summ and not cs:
            # always inlined: its public users carry the verdict
            continue
        if ok:
            continue
        (out if s == "diff" else und).append(r)
    return out, und
