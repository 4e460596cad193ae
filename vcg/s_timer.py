"""C27: delayed_task, timer_task, delayed_task_scheduler::cancel and asio_service::schedule/cancel_impl.

Judged by running short sequences of the real operations from an arbitrary state and counting how often the action ran; asio's
steady_timer is the only thing modelled: it records the duration and the completion handler it was given."""
import z3
from core import *
from ctypes_ import T, INT32
from spec import Spec
from engine import Root
import cast


def load():
    return cast.load('asio_service.cxx')


class TSpec(Spec):
    def fn_call_model(self, ex, fv, vals, n):
        k = fv.id if isinstance(fv, VFn) else fv
        if isinstance(fv, VFn) and fv.kind in ('closure', 'func'):
            return NotImplemented
        g = ex.st.ghost
        if 'action' in g and z3.is_expr(k):
            ex.oblige('C27', 'what runs is the action of the task', k == g['action'])
            if vals:
                v = ex.rv(vals[0])
                v = v.ref if isinstance(v, Obj) else ex.scal(v)
                ex.oblige('C27', 'the action gets the context of the task', v == g['actx'])
            ex.gset('runs', g['runs'] + 1)
            return None
        return NotImplemented

    def method_model(self, ex, cls, name, obj, args, n, f):
        if cls == 'delayed_task' and name == 'exec':
            ex.gset('runs', ex.st.ghost['runs'] + 1)
            return None
        if name == 'cancel_impl' and f is not None and f.body is None:
            return ex.inline(ex.tu.by_qual['asio_service::cancel_impl'][0], Obj(obj.ref, 'asio_service'), [ex.arg(a) for a in args])
        return NotImplemented

    def is_timer(self, t):
        return 'steady_timer' in str(t.name) or 'basic_waitable_timer' in str(t.name)

    def opaque_construct(self, ex, t, args, n):
        if self.is_timer(t):
            for a in args:
                ex.arg(a)
            r = ex.new_ref()
            return Obj(r, 'steady_timer')
        return NotImplemented

    def opaque_method(self, ex, bt, name, base, args, n):
        g = ex.st.ghost
        if self.is_timer(bt):
            r = base.ref if isinstance(base, Obj) else (ex.scal(base) if not isinstance(base, VOpaque) else None)
            if name in ('expires_after', 'expires_from_now'):
                ex.gset('expiry', self.nanos(ex, args[0]))
                ex.gset('waits', z3.IntVal(0))
                return VOpaque(bt)
            if name == 'async_wait':
                fv = ex.take(ex.arg(args[0]))
                ex.gset('waits', g['waits'] + 1)
                ex.st.ghost['$handler'] = fv
                ex.gset('waited_for', g['expiry'])
                return None
            if name == 'cancel':
                for a in args:
                    ex.arg(a)
                ex.gset('tcancel', g['tcancel'] + 1)
                return VOpaque(bt)
        if 'error_code' in str(bt.name) and name in ('operator bool', 'operator!'):
            e = g['err']
            return e if name == 'operator bool' else z3.Not(e)
        return NotImplemented

    UNITS = (('nano', 1), ('micro', 10 ** 3), ('milli', 10 ** 6), ('1000000000>', 1), ('1000000>', 10 ** 3), ('1000>', 10 ** 6), ('seconds', 10 ** 9))

    def nanos(self, ex, n):
        """the duration an expression denotes, in nanoseconds"""
        t = ex.ty(n)
        q = (n.get('type', {}).get('qualType', '') + ' ' + n.get('type', {}).get('desugaredQualType', '')).replace(' ', '')
        xs = [c for c in n.get('inner', []) if c.get('kind')]
        if n.get('kind') == 'CallExpr' and len(xs) == 2 and ex.callee_name(xs[0]) == 'duration_cast':
            return self.nanos(ex, xs[1])  # milliseconds to nanoseconds loses nothing
        if n.get('kind') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXFunctionalCastExpr', 'MaterializeTemporaryExpr', 'ImplicitCastExpr',
                             'ExprWithCleanups', 'CXXBindTemporaryExpr') and len(xs) == 1:
            if ex.ty(xs[0]).k == 'int' or (ex.ty(xs[0]).k == 'lref' and ex.ty(xs[0]).a.k == 'int'):
                for u, k in self.UNITS:
                    if u in q:
                        return ex.scal(ex.rv(ex.ev(xs[0]))) * k
            return self.nanos(ex, xs[0])
        ex.taint('duration')
        ex.ev(n)
        return ex.fresh('dur')


def roots(tu, tags=None):
    out = []
    sp = TSpec(tags)

    def base(ex):
        ex.bump_alloc()
        for n, v in (('runs', 0), ('waits', 0), ('tcancel', 0)):
            ex.gset(n, z3.IntVal(v))
        ex.gset('expiry', z3.IntVal(-1))
        ex.gset('waited_for', z3.IntVal(-2))
        ex.gset('err', z3.BoolVal(False))
        r = ex.fresh('task')
        ex.assume(z3.And(r > 0, r < ex.st.alloc))
        return r

    D = lambda n: tu.by_qual['delayed_task::' + n][0]

    def seq(ops, runs, name, ctor=False):
        def setup(ex):
            r = base(ex)
            if ctor:
                o = Obj(ex.new_ref(), 'delayed_task')
                ex.run_ctor(D('delayed_task'), o, 'delayed_task', [])
                r = o.ref
            return Obj(r, 'delayed_task'), [], {}

        def run(ex, this, vals, c):
            for o in ops:
                ex.inline(D(o), this, [])

        def post(ex, kind, ret, c):
            ex.oblige('C27', name + ' (does not fail)', z3.BoolVal(kind == 'return'), assume=False)
            ex.oblige('C27', name, ex.st.ghost['runs'] == runs, assume=False)
        out.append(Root('delayed_task: ' + ', '.join((['new'] if ctor else []) + list(ops)), sp, tu, setup, post, run=run, func=D('execute')))

    seq(['cancel', 'execute'], 0, 'a cancelled task does not run')
    seq(['cancel', 'execute', 'execute'], 0, 'a cancelled task does not run')
    seq(['cancel', 'reset', 'execute'], 1, 'a task scheduled again after it was cancelled runs once per expiry')
    seq(['reset', 'execute', 'reset', 'execute'], 2, 'a task that is not cancelled runs once per expiry')
    seq(['reset', 'cancel', 'execute'], 0, 'a cancelled task does not run')
    seq(['execute'], 1, 'a new task runs once per expiry', ctor=True)

    # timer_task: exec runs the action it was given, once, with its context
    for cls in sorted(k for k in tu.records if k.startswith('timer_task<') and 'T' != k[11:-1]):
        fs = tu.by_qual.get(cls + '::exec', [])
        if not fs:
            continue

        def tsetup(ex, cls=cls):
            base(ex)
            a = ex.fresh('action')
            ex.assume(a > 0)
            ex.gset('action', a)
            p = ex.fresh('ctx')
            ex.assume(z3.And(p > 0, p < ex.st.alloc))
            ex.gset('actx', p)
            vals = [VFn('opaque', id=a)]
            cf = [f for f in tu.by_qual.get(cls + '::timer_task', []) if f.params and 'function' in str(f.type) or 'executor' in str(f.type)]
            cf = [f for f in cf if len(f.params) in (1, 2)][0]
            if len(cf.params) == 2:
                vals.append(Obj(p, 'peer'))
            o = Obj(ex.new_ref(), cls)
            ex.run_ctor(cf, o, cls, vals)
            return o, [], {}

        def tpost(ex, kind, ret, c):
            ex.oblige('C27', 'executing a timer task runs its action exactly once', z3.And(z3.BoolVal(kind == 'return'), ex.st.ghost['runs'] == 1), assume=False)
        out.append(Root(cls + '::exec', sp, tu, tsetup, tpost, func=fs[0]))

    # the scheduler
    S = tu.by_qual['asio_service::schedule'][0]
    SC = tu.by_qual['delayed_task_scheduler::cancel'][0]

    def fire(ex, err):
        fv = ex.st.ghost.get('$handler')
        if fv is None:
            return
        ex.gset('err', z3.BoolVal(err))
        ex.call_fn(fv, [VOpaque(T('opaque', name='asio::error_code'))], None)

    def sseq(ops, runs, name):
        def setup(ex):
            r = base(ex)
            s = ex.fresh('svc')
            ex.assume(z3.And(s > 0, s < ex.st.alloc, s != r))
            ms = ex.fresh_val(INT32, 'ms')
            ex.assume(ms >= 0)
            return Obj(s, 'asio_service'), [], {'ms': ms, 'task': r}

        def run(ex, this, vals, c):
            for o in ops:
                if o == 'schedule':
                    ex.inline(S, this, [c['task'], c['ms']])
                    g = ex.st.ghost
                    ex.oblige('C27', 'scheduling starts one wait for the given time', z3.And(g['waits'] == 1, g['waited_for'] == c['ms'] * 10 ** 6))
                elif o == 'cancel':
                    ex.inline(SC, this, [c['task']])
                elif o == 'expire':
                    fire(ex, False)
                elif o == 'abort':
                    fire(ex, True)

        def post(ex, kind, ret, c):
            ex.oblige('C27', name + ' (does not fail)', z3.BoolVal(kind == 'return'), assume=False)
            ex.oblige('C27', name, ex.st.ghost['runs'] == runs, assume=False)
        out.append(Root('scheduler: ' + ', '.join(ops), sp, tu, setup, post, run=run, func=S))

    sseq(['schedule', 'expire'], 1, 'a scheduled task runs once when it expires')
    sseq(['schedule', 'abort'], 0, 'an aborted wait does not run the task')
    sseq(['schedule', 'cancel', 'expire'], 0, 'a task that was cancelled does not run even if its expiry was already under way')
    sseq(['cancel', 'schedule', 'expire'], 1, 'scheduling makes a cancelled task runnable again')
    sseq(['schedule', 'cancel', 'schedule', 'expire'], 1, 'scheduling makes a cancelled task runnable again')
    sseq(['schedule', 'expire', 'schedule', 'expire'], 2, 'a task runs once per expiry')
    return out
