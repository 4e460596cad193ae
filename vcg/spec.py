"""Base class of the specifications: default hooks."""
import z3
from core import *
from ctypes_ import T, norm, U8

slen = z3.Function('str_len', I, I)


class Contract:
    """requires/ensures/modifies of one function.
    requires(ex, this, vals) -> [(label, formula)]
    havoc(ex, this, vals)       the frame: everything not havocked is unchanged
    ensures(ex, old, this, vals, ret) -> [(label, formula)]   (ex.st is the post state)"""
    may_exit = False

    def requires(self, ex, this, vals):
        return []

    def havoc(self, ex, this, vals):
        pass

    def ensures(self, ex, old, this, vals, ret):
        return []


class Spec:
    IGNORED = ('logger',)
    name = 'base'
    tags = None           # property tags to record (None: all)

    def __init__(self, tags=None):
        self.tags = tags
        self.inline_only = set()

    def wants(self, tag):
        return self.tags is None or tag in self.tags

    def describe_model(self, ex, m):
        out = {}
        for d in m.decls():
            if d.arity() == 0:
                v = m[d]
                if z3.is_int_value(v) or z3.is_true(v) or z3.is_false(v):
                    out[d.name()] = str(v)
        return out

    # memory / pointers
    def on_read(self, ex, l):
        return None

    def on_write(self, ex, l, v):
        return None

    def bitcast(self, ex, v, ft, tt):
        return v

    def addressof(self, ex, v, t):
        raise Unsupported('address of %r' % (v,))

    def deref(self, ex, p, t):
        if t.k in ('vec', 'map', 'set', 'str', 'fn', 'ptr', 'bool', 'time') or (t.k == 'int' and False):
            r = ex.scal(p)
            ex.nonnull(r)
            return ex.box(t, r)
        raise Unsupported('dereference of %s' % t)

    def null_deref(self, ex, r):
        pass

    def mem_load(self, ex, a, t):
        raise Unsupported('memory read')

    def mem_store(self, ex, a, t, v):
        raise Unsupported('memory write')

    def new_array(self, ex, n, t):
        raise Unsupported('new[]')

    def index_check(self, ex, i, c):
        pass

    def div(self, ex, y):
        pass

    # strings
    def empty_str(self, ex):
        s = z3.Int('str!empty')
        ex.assume_once(slen(s) == 0)
        return s

    def str_literal(self, ex, txt):
        import json
        try:
            v = json.loads(txt)
        except Exception:
            v = txt
        s = z3.Int('str!' + repr(v))
        ex.assume_once(slen(s) == len(v.encode()))
        return s

    def make_str(self, ex, vals, n):
        if not vals:
            return self.empty_str(ex)
        v = vals[0]
        if isinstance(v, z3.ExprRef):
            return v
        return ex.fresh('str')

    def to_str(self, ex, v):
        return v if isinstance(v, z3.ExprRef) else ex.fresh('str')

    def str_method(self, ex, name, base, args, n):
        v = ex.rv(base)
        if name in ('size', 'length'):
            ex.assume_once(z3.And(slen(v) >= 0, slen(v) < 2 ** 62))
            return slen(v)
        if name == 'empty':
            return slen(v) == 0
        if name in ('c_str', 'data'):
            return v
        return NotImplemented

    def str_cmp(self, ex, op, a, b):
        if op in ('==', '!='):
            e = ex.scal(a) == ex.scal(b)
            return e if op == '==' else z3.Not(e)
        ex.taint('string order')
        return ex.fresh('scmp', B)

    def str_cat(self, ex, a, b):
        return ex.fresh('strcat')

    # calls
    def pure_call(self, ex, n):
        """member calls that are const and of known classes"""
        name = ex.callee_name(n)
        me = n['inner'][0]
        while me['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
            me = me['inner'][0]
        if n['kind'] == 'CXXMemberCallExpr' and me['kind'] == 'MemberExpr':
            f = ex.tu.definition(me.get('referencedMemberDecl'))
            if f is not None and f.cls in ex.tu.records:
                if f.body is not None:
                    return self.trivial_getter(ex, f)
                return False
            return name in ('size', 'length', 'empty', 'get', 'operator bool', 'end', 'begin', 'find', 'count', 'load')
        return name in ('max', 'min')

    def trivial_getter(self, ex, f):
        b = f.node.get('_triv')
        if b is None:
            xs = f.body.get('inner', [])
            b = len(xs) == 1 and xs[0]['kind'] == 'ReturnStmt' and ex._find(xs[0], 'CXXMemberCallExpr') is None \
                and ex._find(xs[0], 'CallExpr') is None and not ex.has_effect(f.body)
            f.node['_triv'] = b
        return b

    def on_closure(self, ex, fn, caps, n):
        pass

    def on_construct(self, ex, cls):
        pass

    def ctor_model(self, ex, cls, obj, vals):
        return False

    def opaque_construct(self, ex, t, args, n):
        return NotImplemented

    def opaque_method(self, ex, bt, name, base, args, n):
        return NotImplemented

    def function_model(self, ex, name, f, args, n):
        return NotImplemented

    def method_model(self, ex, cls, name, obj, args, n, f):
        return NotImplemented

    def ignored_class(self, cls):
        return cls in self.IGNORED or cls.startswith('strfmt')

    def const_interface(self, f):
        return f.const

    def fn_call_model(self, ex, fv, vals, n):
        return NotImplemented

    def merge_call(self, ex, f):
        return False

    def contract_for(self, ex, f):
        return None

    def opaque_fn(self, ex, f):
        return False

    def virtual_override(self, ex, f, this):
        return None

    def catches(self, q, what):
        return True

    # threads
    def on_lock(self, ex, key, ref, mode, mt):
        pass

    def on_unlock(self, ex, key, ref):
        pass

    def on_notify(self, ex, cv):
        pass

    def on_wait(self, ex, cv, guard):
        pass

    def on_now(self, ex, v):
        pass

    # loops
    def loop_candidates(self, ex, s0, info):
        return []

    def frame_exempt(self, ex):
        """named predicates over references for loop frames: [(name, fn(r) -> formula)]"""
        return []
