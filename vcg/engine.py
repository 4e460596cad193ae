"""Running one root: a function, its precondition set-up and its postcondition."""
import time, traceback
import z3
from core import *
from interp import Interp
import core


class Root:
    """name: shown in reports; setup(ex) -> (this, vals, ctx); post(ex, kind, ret, ctx) emits obligations;
    func: a Func, or a callable(ex, ctx) that runs the code."""

    def __init__(self, name, spec, tu, setup, post, func=None, run=None):
        self.name, self.spec, self.tu, self.setup, self.post, self.func, self.run = name, spec, tu, setup, post, func, run


def verify(root, deadline=None, tmo=4000, maxpaths=4000, hints=None):
    """hints: the loop invariants found before (loop -> names of candidates): tried first, always checked again; if they do
    not carry the proof, the search for invariants starts from all candidates"""
    if hints is not None:
        r = verify_(root, deadline, tmo, maxpaths, hints)
        if not r['error'] and all(x.status() == 'proved' for x in r['results'].values()):
            return r
    return verify_(root, deadline, tmo, maxpaths, None)


def verify_(root, deadline, tmo, maxpaths, hints):
    ex = Interp(root.tu, root.spec, root.name, deadline=deadline, tmo=tmo)
    root.spec.ex = ex
    ex.inv_hints = hints
    t0 = time.time()
    st0 = State()
    ex.st = st0
    ex.run = Run(ex, None, [])
    ex.run.cache = {}
    err = None
    counts = {}
    try:
        base = st0
        pre = []

        def go():
            # the set-up is explored as well: it may evaluate the code's own observers
            this, vals, ctx = root.setup(ex)
            c = dict(ctx)
            c['old'] = ex.st.copy()
            # vacuity: the precondition must not be refutable on every way through the set-up
            if len(pre) < 4:
                pre.append(ex.check(z3.BoolVal(True), 3000))
            try:
                if root.run is not None:
                    r = root.run(ex, this, list(vals), c)
                else:
                    r = ex.inline(root.func, this, list(vals))
                kind = 'return'
            except CReturn as e:
                r, kind = e.v, 'return'
            except CThrow as e:
                r, kind = e.what, 'throw'
            ex.cur = None
            root.post(ex, kind, r, c)
            counts[kind] = counts.get(kind, 0) + 1
            return kind, None
        outs = ex.explore(base, go, {}, maxpaths=maxpaths)
        ex.npaths = len(outs)
        if pre and all(v == z3.unsat for v in pre):
            err = 'precondition is contradictory'
        if not outs:
            err = err or 'no feasible path'
    except Unsupported as e:
        err = 'unsupported: %s (at %s)' % (e, ex.where())
    except Budget as e:
        err = 'budget: %s' % e
    except RecursionError:
        err = 'recursion'
    return dict(name=root.name, results=ex.results, error=err, secs=time.time() - t0, solver=ex.solver_time,
                checks=ex.nchecks, paths=ex.npaths, kinds=counts, inlined=sorted(ex.inlined), contracts=sorted(ex.used_contracts),
                models=sorted(ex.used_models), unsupported=ex.unsupported, loops=ex.loops, backends=ex.backends)


def report(r, verbose=True):
    bad = [x for x in r['results'].values() if x.status() != 'proved']
    print('%-34s paths=%d secs=%.1f solver=%.1f checks=%d oblig=%d/%d %s %s' % (
        r['name'], r['paths'], r['secs'], r['solver'], r['checks'], len(r['results']) - len(bad), len(r['results']),
        r['error'] or '', r['kinds']))
    if verbose:
        for x in bad:
            print('   ', x.status(), x.tag, x.label, 'n=%d ref=%d unk=%d' % (x.n, x.refuted, x.unknown), x.loc)
            if x.detail:
                print('        ', str(x.detail.get('note')), str(x.detail.get('goal'))[:300])
