"""Apply random behaviour-preserving rewrites and count verdicts (development aid)."""
import sys, os, ast, copy, random, json, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(60000)
import refac
from sa import conform as cf
from sa.conform import *
from sa import program as pg


def top_functions(prog):
    out = []
    for m in prog.modules.values():
        for s in m.tree.body:
            if isinstance(s, ast.FunctionDef):
                out.append((m, (s.name,)))
            elif isinstance(s, ast.ClassDef):
                for b in s.body:
                    if isinstance(b, ast.FunctionDef):
                        out.append((m, (s.name, b.name)))
    return out


def find(tree, path):
    body = tree.body
    n = None
    for p in path:
        n = [x for x in body if getattr(x, "name", None) == p][-1]
        body = n.body
    return n


def job(a):
    modname, path, rname, seed, fname = a
    prog = Ctx.repo.prog
    m = prog.modules[modname]
    orig = m.tree
    m.tree = copy.deepcopy(orig)
    pg._LOC.clear()
    rng = random.Random(seed)
    fn = find(m.tree, path)
    try:
        if fname == "refac" and rname == "multi":
            names = sorted(refac.ALL)
            done = 0
            for _ in range(12):
                if refac.ALL[rng.choice(names)](fn, m.tree, rng):
                    done += 1
                    ast.fix_missing_locations(m.tree)
                    m.tree = ast.parse(ast.unparse(m.tree))
                    fn = find(m.tree, path)
                if done >= 5:
                    break
            ok = done > 0
        else:
            ok = (refac.ALL if fname == "refac" else MUT)[rname](fn, m.tree, rng)
        if not ok:
            return None
        ast.fix_missing_locations(m.tree)
        src = ast.unparse(m.tree)
        m.tree = ast.parse(src, m.path)
        m.mutated_globals = pg.mutated_globals(m.tree)
        Ctx.repo.interp = {}
        q = modname + "." + ".".join(path)
        r = cf._threaded((q, "func", (), None))
        dd = None
        if r["status"] != "same":
            import difflib
            A = ast.unparse(find(orig, path)).splitlines()
            B = ast.unparse(find(m.tree, path)).splitlines()
            dd = "\n".join(l for l in difflib.unified_diff(A, B, lineterm="", n=0) if not l.startswith(("---", "+++", "@@")))
        if r["status"] == "same" and fname == "mut":
            import difflib
            A = ast.unparse(find(orig, path)).splitlines()
            B = ast.unparse(find(m.tree, path)).splitlines()
            dd = "\n".join(l for l in difflib.unified_diff(A, B, lineterm="", n=0) if not l.startswith(("---", "+++", "@@")))
        return (q, rname, seed, r["status"], r["note"], r["diffs"][:3], dd)
    except SyntaxError:
        return None
    finally:
        m.tree = orig
        Ctx.repo.interp = {}


MUT = {}

if __name__ == "__main__":
    which = sys.argv[1]
    n = int(sys.argv[2])
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 0
    only = sys.argv[4] if len(sys.argv) > 4 else ""
    rn = sys.argv[5] if len(sys.argv) > 5 else ""
    if which == "mut":
        import mutate
        MUT.update(mutate.ALL)
    load(os.environ.get("FEAX_REPO", "/repo"))
    fns = [f for f in top_functions(Ctx.repo.prog) if only in f[0].name + "." + ".".join(f[1])]
    rng = random.Random(seed)
    names = sorted(k for k in (refac.ALL if which == "refac" else MUT) if rn in k)
    if rn == "multi":
        names = ["multi"]
    jobs = []
    for i in range(n):
        m, p = rng.choice(fns)
        jobs.append((m.name, p, rng.choice(names), rng.randrange(1 << 30), which))
    Ctx.ref.I(Ctx.summ)
    with mp.get_context("fork").Pool(8, initializer=cf._worker_init, maxtasksperchild=int(os.environ.get("MTPC","60"))) as P:
        R = [r for r in P.map(job, jobs, chunksize=1) if r]
    print(len(R), collections.Counter(r[3] for r in R))
    by = collections.Counter((r[1], r[3]) for r in R)
    for k in sorted(by):
        print("  ", k, by[k])
    bad = [r for r in R if r[3] in ("weak", "undecided") or (r[3] != "same") == (which == "refac")]
    json.dump(bad, open("/tmp/w/%s_bad.json" % which, "w"), indent=1)
