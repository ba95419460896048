"""Which functions of the reference may be treated as summarised (opaque) callees.

Written once from the reference tree into specs/summaries.json: for every
function, whether its result is a pure value of its arguments ('pure'), may
raise or perform host effects ('eff'), or mutates heap state ('mut'; always inlined).
"""
from __future__ import annotations
import json, os, sys, time
from concurrent.futures import ProcessPoolExecutor
from .program import Program
from .interp import Interp, Undecided
from .entry import HINTS, all_entries, eval_entry
from . import terms as tm

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = os.path.join(HERE, "specs", "ref")


def classify(t):
    if t.op != "eff":
        return "pure"
    effs = t.args[1]
    if len(t.args) > 2:
        return "mut"
    if not effs.args[2].args:
        return "raise"
    for y in effs.args[2].args:
        z = y.args[1] if y.op == "when" else y
        if z.op in ("setattr", "setitem", "delitem", "setglobal"):
            return "mut"
    return "eff"


def one(args):
    q, opaque = args
    sys.setrecursionlimit(60000)
    I = Interp(Program(REF), hints=HINTS, opaque=opaque)
    t0 = time.time()
    try:
        t = eval_entry(I, q)
        return q, classify(t), len(tm.subterms(t)), time.time() - t0, None
    except Undecided as e:
        return q, None, 0, time.time() - t0, str(e)
    except RecursionError as e:
        return q, None, 0, time.time() - t0, "recursion"
