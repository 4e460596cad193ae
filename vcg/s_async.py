"""C21: async_result over a lock invariant.

The object is shared: whenever the lock is free, other threads may have registered the handler or set the result (each at most
once in the life of the object).  A ghost protocol state says what happened so far:
  S: a result was set (RV, RE: value and error), R: a handler HV was registered.
Invariant while the lock is free:  has_result_ == S,  S -> result_ == RV and err_ == RE,  not S -> handler_ is HV if R, else empty.
The call of the handler is owed by the operation that completes the pair: set_result if the handler was there when the result
was published, when_ready if the result was there when the handler arrived."""
import os
import z3
from core import *
from ctypes_ import T, U64
from spec import Spec
from engine import Root
import cast

HERE = os.path.dirname(os.path.abspath(__file__))
C = 'async_result<unsigned long, std::shared_ptr<std::exception>>'
F = lambda n: C + '.' + n
Q = lambda n: C + '::' + n


def load():
    return cast.load(os.path.join(HERE, 'tu', 'async.cxx'))


class ASpec(Spec):
    """one object `r` shared with an environment; env_set / env_reg: what the environment may still do"""

    def __init__(self, tags, op):
        Spec.__init__(self, tags)
        self.op = op
        self.own = False

    def g(self, ex, n):
        return ex.st.ghost[n]

    def inv(self, ex, r):
        g = ex.st.ghost
        S, R = g['S'], g['R']
        out = [('the result flag says whether a result was set', ex.truth(ex.get(F('has_result_'), r)) == S),
               ('the stored result and error are the ones set', z3.Implies(S, z3.And(ex.get(F('result_'), r) == g['RV'], ex.get(F('err_'), r) == g['RE'])))]
        h = self.fid(ex.get(F('handler_'), r))
        out.append(('a handler waits exactly when one was registered', z3.Implies(z3.Not(S), h == z3.If(R, g['HV'], 0))))
        return out

    def fid(self, v):
        return v.id if isinstance(v, VFn) else v

    def env(self, ex, r):
        """other threads act"""
        g = ex.st.ghost
        S0, R0 = g['S'], g['R']
        S1 = z3.Or(S0, ex.fresh('envS', B)) if self.env_set(ex) else S0
        R1 = z3.Or(R0, ex.fresh('envR', B)) if self.env_reg(ex) else R0
        rv, re, hv = ex.fresh('RV'), ex.fresh('RE'), ex.fresh('HV')
        ex.assume(z3.And(re >= 0, hv > 0, rv >= 0, rv < 2 ** 64))
        ex.gset('RV', z3.If(S0, g['RV'], rv))
        ex.gset('RE', z3.If(S0, g['RE'], re))
        ex.gset('HV', z3.If(R0, g['HV'], hv))
        ex.gset('S', S1)
        ex.gset('R', R1)
        self.own = True
        for n in ('has_result_', 'result_', 'err_', 'handler_'):
            o = ex.get(F(n), r)
            ex.havoc_field(F(n), ex.field(F(n)), r)
            v = ex.get(F(n), r)
            # nothing moves unless somebody acts
            o, v = self.fid(o), self.fid(v)
            ex.assume(z3.Implies(z3.And(S0 == S1, R0 == R1), o == v))
        for lab, f in self.inv(ex, r):
            ex.assume(f)
        self.own = False

    def env_set(self, ex):
        return self.op != 'set'

    def env_reg(self, ex):
        return self.op != 'reg'

    def held(self, ex):
        return any(l is not None and l[0] == F('lock_') for l in ex.st.locks)

    SHARED = [F(n) for n in ('has_result_', 'result_', 'err_', 'handler_')]

    def on_read(self, ex, l):
        if l.key in self.SHARED and not self.own and not self.held(ex) and self.live(ex):
            self.env(ex, l.ref)

    def on_write(self, ex, l, v):
        if l.key in self.SHARED and not self.own and not self.held(ex) and self.live(ex):
            ex.oblige('C21', 'the result, the error and the handler change only under the lock', z3.BoolVal(False))

    def live(self, ex):
        return ex.st.ghost.get('live') is not None

    def on_lock(self, ex, key, ref, mode, mt):
        if key == F('lock_') and self.live(ex):
            ex.oblige('C21', 'the lock is not taken twice', z3.BoolVal(not self.held(ex)))
            self.env(ex, ref)

    def on_unlock(self, ex, key, ref):
        if key == F('lock_') and self.live(ex):
            self.release(ex, ref)

    def release(self, ex, r):
        """what the operation left: protocol state moves on, the invariant holds again"""
        g = ex.st.ghost
        self.own = True
        S0, R0 = g['S'], g['R']
        if self.op == 'set':
            S1 = ex.truth(ex.get(F('has_result_'), r))
            ex.oblige('C21', 'a result stays set', z3.Implies(S0, S1))
            ex.gset('RV', z3.If(S0, g['RV'], g['v0']))
            ex.gset('RE', z3.If(S0, g['RE'], g['e0']))
            ex.gset('due', z3.If(z3.And(S1, z3.Not(S0), R0), z3.BoolVal(True), g['due']))
            ex.gset('S', S1)
        elif self.op == 'reg':
            h = self.fid(ex.get(F('handler_'), r))
            ex.gset('R', z3.Or(R0, z3.And(z3.Not(S0), h != 0)))
            ex.gset('HV', z3.If(R0, g['HV'], g['h0']))
        for lab, f in self.inv(ex, r):
            ex.oblige('C21', lab + ' (when the lock is released)', f)
        self.own = False

    def on_wait(self, ex, cv, guard):
        if not self.live(ex):
            return
        r = guard.locks[0][1]
        self.release(ex, r)
        self.env(ex, r)

    def on_notify(self, ex, cv):
        if self.live(ex):
            ex.gset('notified', z3.Or(ex.st.ghost['notified'], z3.And(ex.st.ghost['S'], z3.BoolVal(ex.notify_kind == 'notify_all'))))

    def fn_call_model(self, ex, fv, vals, n):
        if not self.live(ex) or (isinstance(fv, VFn) and fv.kind == 'closure'):
            return NotImplemented
        g = ex.st.ghost
        self.own = True
        a = [ex.scal(ex.rv(v)) for v in vals]
        self.own = False
        ex.oblige('C21', 'the handler is called only after a result was set', g['S'] if self.op != 'set' else z3.Or(g['S'], z3.BoolVal(False)))
        ex.oblige('C21', 'the handler is called with the result and the error that were set', z3.And(a[0] == g['RV'], a[1] == g['RE']))
        want = g['h0'] if self.op == 'reg' else g['HV']
        ex.oblige('C21', 'the function called is the registered handler', self.fid(fv) == want)
        ex.gset('calls', g['calls'] + 1)
        return None

    def loop_candidates(self, ex, s0, info):
        g = lambda n: ex.st.ghost[n]
        out = []
        if not self.live(ex):
            return out
        r = s0.ghost['live']

        def invs(e):
            self.own = True
            x = self.inv(e, r)
            self.own = False
            return z3.And([f for _, f in x])
        out.append(('inv', invs))
        out.append(('calls', lambda e: e.st.ghost['calls'] == s0.ghost['calls']))
        out.append(('Smono', lambda e: z3.Implies(s0.ghost['S'], z3.And(e.st.ghost['S'], e.st.ghost['RV'] == s0.ghost['RV'], e.st.ghost['RE'] == s0.ghost['RE']))))
        out.append(('Rmono', lambda e: z3.Implies(s0.ghost['R'], z3.And(e.st.ghost['R'], e.st.ghost['HV'] == s0.ghost['HV']))))
        out.append(('due', lambda e: e.st.ghost['due'] == s0.ghost['due']))
        return out


def roots(tu, tags=None):
    out = []

    def base(ex, sp, S=None, R=None):
        ex.bump_alloc()
        r = ex.fresh('this')
        ex.assume(z3.And(r > 0, r < ex.st.alloc))
        for n in ('RV', 'RE', 'HV', 'v0', 'e0', 'h0'):
            ex.gset(n, ex.fresh(n))
        g = ex.st.ghost
        ex.assume(z3.And(g['RV'] >= 0, g['RE'] >= 0, g['HV'] > 0, g['v0'] >= 0, g['v0'] < 2 ** 64, g['e0'] >= 0, g['h0'] > 0))
        ex.gset('S', ex.fresh('S', B) if S is None else z3.BoolVal(S))
        ex.gset('R', ex.fresh('R', B) if R is None else z3.BoolVal(R))
        ex.gset('calls', z3.IntVal(0))
        ex.gset('due', z3.BoolVal(False))
        ex.gset('notified', z3.BoolVal(False))
        sp.own = True
        for _, f in sp.inv(ex, r):
            ex.assume(f)
        sp.own = False
        ex.gset('live', r)
        return r

    def done(ex, sp, kind):
        ex.oblige('C21', 'the lock is free at the end', z3.BoolVal(not sp.held(ex)), assume=False)

    # when_ready
    sp = ASpec(tags, 'reg')
    f = tu.by_qual[Q('when_ready')][0]

    def ws(ex, sp=sp):
        r = base(ex, sp, None, False)
        return Obj(r, C), [VFn('opaque', id=ex.st.ghost['h0'])], {}

    def wp(ex, kind, ret, c, sp=sp):
        g = ex.st.ghost
        done(ex, sp, kind)
        ex.oblige('C21', 'when_ready does not fail', z3.BoolVal(kind == 'return'), assume=False)
        ex.oblige('C21', 'when_ready calls the handler itself exactly if the result was set before the handler was left for it',
                  g['calls'] == z3.If(g['R'], 0, 1), assume=False)
    out.append(Root('async_result::when_ready', sp, tu, ws, wp, func=f))

    # set_result
    sp2 = ASpec(tags, 'set')
    f2 = tu.by_qual[Q('set_result')][0]

    def ss(ex, sp=sp2):
        r = base(ex, sp, False, None)
        g = ex.st.ghost
        return Obj(r, C), [g['v0'], g['e0']], {}

    def spost(ex, kind, ret, c, sp=sp2):
        g = ex.st.ghost
        done(ex, sp, kind)
        ex.oblige('C21', 'set_result does not fail', z3.BoolVal(kind == 'return'), assume=False)
        ex.oblige('C21', 'after set_result a result is set', g['S'], assume=False)
        ex.oblige('C21', 'set_result calls the handler exactly if it was registered when the result was published',
                  g['calls'] == z3.If(g['due'], 1, 0), assume=False)
        ex.oblige('C21', 'set_result wakes all waiters after the result is there', g['notified'], assume=False)
    out.append(Root('async_result::set_result', sp2, tu, ss, spost, func=f2))

    # get
    sp3 = ASpec(tags, 'get')
    f3 = tu.by_qual[Q('get')][0]

    def gs(ex, sp=sp3):
        return Obj(base(ex, sp), C), [], {}

    def gp(ex, kind, ret, c, sp=sp3):
        g = ex.st.ghost
        done(ex, sp, kind)
        ex.oblige('C21', 'get ends only when a result was set', g['S'], assume=False)
        sp.own = True
        if kind == 'return':
            ex.oblige('C21', 'get returns the result that was set and only if no error was', z3.And(ex.scal(ex.rv(ret)) == g['RV'], g['RE'] == 0), assume=False)
        else:
            ex.oblige('C21', 'get throws exactly if an error was set', g['RE'] != 0, assume=False)
            ex.oblige('C21', 'get throws the error', z3.BoolVal('ptr' in str(ret) or 'TE' in str(ret)), assume=False)
        sp.own = False
        ex.oblige('C21', 'get calls no handler', g['calls'] == 0, assume=False)
    out.append(Root('async_result::get', sp3, tu, gs, gp, func=f3))

    # constructors
    for f4 in tu.by_qual[Q('async_result')]:
        kind4 = 'none' if not f4.params else ('handler' if 'handler' in f4.type or 'function' in f4.type else 'value')
        sp4 = ASpec(tags, 'ctor')

        def cs(ex, k=kind4):
            ex.bump_alloc()
            v = ex.fresh('v') if k != 'handler' else VFn('opaque', id=ex.fresh('h'))
            if k == 'handler':
                ex.assume(v.id > 0)
            else:
                ex.assume(z3.And(v >= 0, v < 2 ** 64))
            return None, ([] if k == 'none' else [v]), {'v': v}

        def crun(ex, this, vals, c, f4=f4):
            o = Obj(ex.new_ref(), C)
            ex.run_ctor(f4, o, C, vals)
            c['o'] = o
            return o

        def cp(ex, kind, ret, c, sp=sp4, k=kind4):
            r = ret.ref if isinstance(ret, Obj) else ex.scal(ret)
            ex.gset('S', z3.BoolVal(k == 'value'))
            ex.gset('R', z3.BoolVal(k == 'handler'))
            ex.gset('RV', c['v'] if k == 'value' else z3.IntVal(0))
            ex.gset('RE', z3.IntVal(0))
            ex.gset('HV', c['v'].id if k == 'handler' else z3.IntVal(0))
            for lab, fm in sp.inv(ex, r):
                ex.oblige('C21', lab + ' (after construction)', fm, assume=False)
        out.append(Root('async_result::async_result(%s)' % kind4, sp4, tu, cs, cp, run=crun, func=f4))
    return out
