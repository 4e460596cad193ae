"""Semantics of the C++ standard library parts the code uses: smart pointers, vector/list, map/set,
string, atomics, locks, function, chrono.  Containers are mathematical values (array + length, or
domain/value maps with an arbitrary but fixed iteration order)."""
import z3
from core import *
from ctypes_ import T, norm

SEQ_RO = ('size', 'empty', 'length')


def inner(n):
    return n.get('inner', [])


def attach(Interp, Moved):

    def take(self, v):
        """value of an argument; a moved-from smart pointer or container is emptied"""
        if isinstance(v, Moved):
            l = v.loc
            x = self.load(l)
            if isinstance(l, LOCS) and not isinstance(l, LTmp):
                if l.t.k == 'ptr':
                    self.store(l, z3.IntVal(0))
                elif l.t.k in ('vec',):
                    self.store(l, self.default(l.t))
            return x
        return self.rv(v)
    Interp.take = take

    # ------------------------------------------------------------ construction
    def lib_construct(self, t, args, n):
        k = t.k
        args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
        if k == 'guard':
            return self.make_guard(t, args, n)
        if k in ('int', 'bool'):
            return self.conv_to(self.rv(self.ev(args[0])), t) if args else self.default(t)
        if k == 'ptr':
            if not args:
                return z3.IntVal(0)
            v = self.take(self.arg(args[0]))
            if isinstance(v, Obj):
                return v.ref
            if isinstance(v, (VFn, VOpaque)):
                return self.fresh_val(t, 'p')
            return self.scal(v)
        if k == 'vec':
            if not args:
                return self.default(t)
            vals = [self.take(self.arg(a)) for a in args]
            if isinstance(vals[0], VVec):
                return vals[0]
            if isinstance(vals[0], z3.ExprRef):
                d = vals[1] if len(vals) > 1 and isinstance(vals[1], z3.ExprRef) else None
                e = self.unpack(t.a, d if d is not None else self.default(t.a))[0]
                es = B if t.a.k == 'bool' else I
                return VVec(vals[0], z3.K(I, e), t.a)
            if len(vals) >= 2 and isinstance(vals[0], VIter) and isinstance(vals[1], VIter):
                return self.vec_append_range(self.default(t), vals[0], vals[1])
            raise Unsupported('vector constructor')
        if k in ('map', 'set'):
            if not args:
                return self.default(t)
            v = self.take(self.arg(args[0]))
            if isinstance(v, VMap):
                return v
            raise Unsupported('map constructor')
        if k == 'str':
            return self.spec.make_str(self, [self.take(self.arg(a)) for a in args], n)
        if k == 'fn':
            if not args:
                return VFn('nil', id=z3.IntVal(0))
            v = self.take(self.arg(args[0]))
            if isinstance(v, VFn):
                return v
            if isinstance(v, z3.ExprRef):
                return VFn('opaque', id=v) if not z3.is_int_value(v) or v.as_long() else VFn('nil', id=z3.IntVal(0))
            return VFn('opaque', id=self.fresh('fn'))
        if k == 'time':
            if not args:
                return z3.IntVal(0)
            return self.scal(self.take(self.arg(args[0])))
        if k == 'pair':
            if len(args) == 1:
                v = self.take(self.arg(args[0]))
                return v
            if len(args) == 2:
                return VPair(self.take(self.arg(args[0])), self.take(self.arg(args[1])))
            return VPair(self.default(t.a), self.default(t.b))
        if k == 'iter':
            if args:
                v = self.take(self.arg(args[0]))
                return v
            return VOpaque(t)
        if k == 'arr':
            return VOpaque(t)
        if k in ('mutex', 'cv'):
            return VOpaque(t)
        if k == 'opaque':
            r = self.spec.opaque_construct(self, t, args, n)
            if r is not NotImplemented:
                return r
            for a in args:
                try:
                    self.ev(a)
                except Unsupported:
                    self.taint('argument of %s' % t.name)
            return VOpaque(t)
        raise Unsupported('construct %s' % t)
    Interp.lib_construct = lib_construct

    def make_guard(self, t, args, n):
        if not args:
            raise Unsupported('deferred lock')
        l = self.ev(args[0])
        extra = len(args) > 1
        if isinstance(l, VGuard):
            return l
        if not isinstance(l, LField):
            if isinstance(l, VOpaque):
                l = LField('opaque_mutex', z3.IntVal(0), T('mutex', name='mutex'))
            else:
                raise Unsupported('lock of %r' % (l,))
        mode = 'shared' if t.name == 'shared_lock' else 'excl'
        if extra:
            q = norm(args[1].get('type', {}).get('qualType', ''))
            if 'adopt' in q:
                mode = 'adopt'
            elif 'defer' in q:
                g = VGuard([(l.key, l.ref, mode, l.t.name)])
                g.key = None
                return g
            else:
                raise Unsupported('guard arguments')
        g = VGuard([(l.key, l.ref, mode, l.t.name)])
        self.acquire(g)
        return g
    Interp.make_guard = make_guard

    def acquire(self, g):
        for (key, ref, mode, mt) in g.locks:
            if mode != 'adopt':
                self.spec.on_lock(self, key, ref, mode, mt)
            self.st.locks.append((key, ref, mode, mt))
            g.key = len(self.st.locks) - 1
    Interp.acquire = acquire

    def unlock(self, g):
        for l in g.locks:
            for i in range(len(self.st.locks) - 1, -1, -1):
                x = self.st.locks[i]
                if x is not None and x[0] == l[0] and x[1].eq(l[1]):
                    self.st.locks[i] = None
                    self.spec.on_unlock(self, l[0], l[1])
                    break
    Interp.unlock = unlock

    # ------------------------------------------------------------ free functions
    def lib_call(self, name, args, n):
        t = self.ty(n)
        if name in ('move', 'forward', 'ref', 'cref', 'as_const', 'addressof'):
            v = self.ev(args[0])
            if name == 'addressof':
                return self.scal(v)
            return v
        if name in ('min', 'max'):
            if not args:
                tt = t
                lo, hi = self.bounds(tt)
                return z3.IntVal(hi if name == 'max' else lo)
            if len(args) == 2:
                a, b = self.scal(self.ev(args[0])), self.scal(self.ev(args[1]))
                tt = t.a if t.k == 'lref' else t
                if name == 'min':
                    return LTmp(simp(z3.If(b < a, b, a)), tt)
                return LTmp(simp(z3.If(a < b, b, a)), tt)
        if name == 'make_pair':
            return VPair(self.take(self.arg(args[0])), self.take(self.arg(args[1])))
        if name in ('make_shared', 'make_unique', 'cs_new'):
            tt = t
            if tt.k != 'ptr':
                raise Unsupported('make_shared type %s' % t)
            return self.new_object(tt.a, args, n)
        if name in ('sort', 'stable_sort'):
            return self.do_sort(args)
        if name in ('exit', 'abort', '_exit', 'quick_exit', 'terminate'):
            for a in args:
                self.ev(a)
            raise SysExit()
        if name == 'now':
            v = self.fresh('now')
            self.assume(z3.And(v >= 0, v < 2 ** 62))
            self.spec.on_now(self, v)
            return v
        if name == 'duration_cast':
            v = self.scal(self.ev(args[0]))
            q = n['type']['qualType']
            dq = n['type'].get('desugaredQualType', q)
            if 'milli' in q or '1000>' in dq.replace(' ', ''):
                return self.binop('/', v, z3.IntVal(1000000), T('int', 64, True), T('int', 64, True), T('int', 64, True))
            self.taint('duration_cast')
            return self.fresh('dur')
        if name in ('operator-', 'operator+', 'operator<', 'operator==', 'operator!=', 'operator>', 'operator<=', 'operator>='):
            return self.lib_operator(name, args, n)
        if name in ('begin', 'end') and len(args) == 1:
            return self.lib_method(self.ty(args[0]), name, self.ev(args[0]), [], n)
        if name in ('swap',) and len(args) == 2:
            a, b = self.ev(args[0]), self.ev(args[1])
            x, y = self.rv(a), self.rv(b)
            self.store(a, y)
            self.store(b, x)
            return None
        if name in ('find_if', 'any_of', 'all_of', 'none_of', 'count_if', 'for_each', 'find', 'distance', 'advance', 'next', 'prev',
                    'nth_element', 'accumulate', 'copy', 'fill', 'back_inserter', 'count', 'transform', 'max_element', 'min_element'):
            return self.algorithm(name, args, n)
        if name in ('atomic_load', 'atomic_store'):
            pass
        return NotImplemented
    Interp.lib_call = lib_call

    def algorithm(self, name, args, n):
        if name == 'distance':
            a, b = self.rv(self.ev(args[0])), self.rv(self.ev(args[1]))
            if isinstance(a, VIter) and isinstance(b, VIter):
                return simp(b.pos - a.pos)
        if name in ('next', 'prev') and args:
            a = self.rv(self.ev(args[0]))
            d = self.scal(self.ev(args[1])) if len(args) > 1 and args[1]['kind'] != 'CXXDefaultArgExpr' else z3.IntVal(1)
            if isinstance(a, VIter):
                return VIter(a.loc, simp(a.pos + d if name == 'next' else a.pos - d))
        raise Unsupported('algorithm ' + name)
    Interp.algorithm = algorithm

    def new_object(self, tt, args, n):
        if tt.k == 'cls':
            vals = []
            for a in args:
                vals.append(self.arg(a))
            return self.construct(tt.name, vals).ref
        if tt.k in ('vec', 'map', 'set', 'str', 'int', 'bool'):
            v = self.lib_construct(tt, args, n) if args else self.default(tt)
            r = self.new_ref()
            self.store(self.box(tt, r), v)
            return r
        for a in args:
            try:
                self.ev(a)
            except Unsupported:
                pass
        r = self.new_ref()
        return r
    Interp.new_object = new_object

    def box(self, t, ref):
        return LField('box:%r' % (t,), ref, t)
    Interp.box = box

    def do_sort(self, args):
        a, b = self.rv(self.ev(args[0])), self.rv(self.ev(args[1]))
        if not (isinstance(a, VIter) and isinstance(b, VIter)):
            raise Unsupported('sort')
        desc = None
        if len(args) == 2:
            desc = False
        else:
            q = args[2]['type'].get('desugaredQualType') or args[2]['type']['qualType']
            if 'greater' in q:
                desc = True
            elif 'less' in q:
                desc = False
        c = self.load(a.loc)
        whole = const_int(simp(a.pos)) == 0 and self.implied(b.pos == c.len)
        if not whole or desc is None:
            raise Unsupported('sort with comparator or sub-range')
        arr = self.fresh('sorted', c.arr.sort())
        i, j, x = z3.Ints('i!s j!s x!s')
        if desc:
            o = z3.Select(arr, i) >= z3.Select(arr, j)
        else:
            o = z3.Select(arr, i) <= z3.Select(arr, j)
        self.assume(ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < c.len), o),
                              patterns=[(z3.Select(arr, i), z3.Select(arr, j))]))
        # permutation: same number of elements >= x, for every x (count_ge is the counting function)
        cg = count_ge
        self.assume(ForAll([x], cg(arr, c.len, x) == cg(c.arr, c.len, x), patterns=[cg(arr, c.len, x), cg(c.arr, c.len, x)]))
        # counting facts that follow from sortedness
        if desc:
            self.assume(ForAll([i], z3.Implies(z3.And(0 <= i, i < c.len), cg(arr, c.len, z3.Select(arr, i)) >= i + 1),
                                  patterns=[z3.Select(arr, i)]))
        else:
            self.assume(ForAll([i], z3.Implies(z3.And(0 <= i, i < c.len), cg(arr, c.len, z3.Select(arr, i)) >= c.len - i),
                                  patterns=[z3.Select(arr, i)]))
        # element-wise: every result element occurs in the input
        pi = z3.Function('perm!%d' % self.st.nf, I, I)
        self.assume(ForAll([i], z3.Implies(z3.And(0 <= i, i < c.len), z3.And(
            0 <= pi(i), pi(i) < c.len, z3.Select(arr, i) == z3.Select(c.arr, pi(i)))), patterns=[z3.Select(arr, i)]))
        self.st.sorts = getattr(self.st, 'sorts', []) + [(c.arr, c.len)]
        self.store(a.loc, VVec(c.len, arr, c.et))
        return None
    Interp.do_sort = do_sort

    # ------------------------------------------------------------ methods
    def lib_method(self, bt, name, base, args, n):
        k = bt.k
        if k == 'vec':
            return self.m_vec(bt, name, base, args, n)
        if k in ('map', 'set'):
            return self.m_map(bt, name, base, args, n)
        if k == 'ptr':
            return self.m_ptr(bt, name, base, args, n)
        if k in ('bool', 'int'):
            return self.m_atomic(bt, name, base, args, n)
        if k == 'guard':
            g = self.rv(base)
            if name == 'unlock':
                self.unlock(g)
                return None
            if name == 'lock':
                self.acquire(g)
                return None
            if name == 'release':
                return VOpaque(bt)
            if name == 'owns_lock':
                return z3.BoolVal(any(x is not None and x[0] == l[0] and x[1].eq(l[1]) for l in g.locks for x in self.st.locks))
        if k == 'mutex':
            g = VGuard([(base.key, base.ref, 'shared' if name.endswith('shared') else 'excl', bt.name)])
            if name in ('lock', 'lock_shared'):
                self.acquire(g)
                return None
            if name in ('unlock', 'unlock_shared'):
                self.unlock(g)
                return None
            raise Unsupported('mutex ' + name)
        if k == 'cv':
            if name in ('notify_one', 'notify_all'):
                self.notify_kind = name
                self.spec.on_notify(self, base)
                return None
            if name in ('wait', 'wait_for', 'wait_until'):
                g = self.rv(self.ev(args[0]))
                self.spec.on_wait(self, base, g)
                if name == 'wait' and len(args) == 2:
                    fv = self.rv(self.ev(args[1]))
                    c = self.truth(self.call_fn(fv, [], n))
                    self.assume(c)
                    return None
                if name == 'wait':
                    return None
                if len(args) == 3:
                    fv = self.rv(self.ev(args[2]))
                    return self.truth(self.call_fn(fv, [], n))
                return VOpaque()
        if k == 'fn':
            if name == 'operator bool':
                return self.fn_truth(self.rv(base))
            if name == 'operator()':
                return self.call_fn(self.rv(base), [self.arg(a) for a in args], n)
        if k == 'str':
            return self.spec.str_method(self, name, base, args, n)
        if k == 'time':
            if name in ('count', 'time_since_epoch'):
                return self.scal(base)
        if k == 'opaque':
            r = self.spec.opaque_method(self, bt, name, base, args, n)
            if r is not NotImplemented:
                return r
        return NotImplemented
    Interp.lib_method = lib_method

    def fn_truth(self, v):
        if isinstance(v, VFn):
            if v.kind == 'nil':
                return z3.BoolVal(False)
            if v.kind == 'opaque':
                return v.id != 0
            return z3.BoolVal(True)
        return self.scal(v) != 0
    Interp.fn_truth = fn_truth

    def m_atomic(self, bt, name, base, args, n):
        if name == 'load' or name.startswith('operator '):
            return self.rv(base)
        if name in ('store', 'operator='):
            v = self.conv_to(self.rv(self.ev(args[0])), bt)
            self.store(base, v)
            return v
        if name in ('compare_exchange_strong', 'compare_exchange_weak'):
            e = self.ev(args[0])
            d = self.conv_to(self.rv(self.ev(args[1])), bt)
            cur = self.rv(base)
            exp = self.conv_to(self.rv(e), bt)
            ok = self.branch(cur == exp)
            if ok:
                self.store(base, d)
                return z3.BoolVal(True)
            self.store(e, cur)
            return z3.BoolVal(False)
        if name == 'exchange':
            v = self.conv_to(self.rv(self.ev(args[0])), bt)
            old = self.rv(base)
            self.store(base, v)
            return old
        if name in ('fetch_add', 'fetch_sub'):
            v = self.scal(self.ev(args[0]))
            old = self.rv(base)
            self.store(base, self.wrap(old + v if name == 'fetch_add' else old - v, bt))
            return old
        return NotImplemented
    Interp.m_atomic = m_atomic

    def m_ptr(self, bt, name, base, args, n):
        v = self.rv(base)
        if name == 'operator bool':
            return self.truth(v)
        if name == 'get':
            return self.scal(v)
        if name == 'operator->':
            return self.scal(v)
        if name == 'operator*':
            return self.deref(v, bt.a, n)
        if name == 'reset':
            a = [x for x in args if x['kind'] != 'CXXDefaultArgExpr']
            x = self.scal(self.take(self.arg(a[0]))) if a else z3.IntVal(0)
            self.store(base, x)
            return None
        if name == 'release':
            self.store(base, z3.IntVal(0))
            return self.scal(v)
        if name == 'swap':
            o = self.ev(args[0])
            x = self.rv(o)
            self.store(o, v)
            self.store(base, x)
            return None
        if name == 'lock':
            return self.scal(v)
        if name in ('use_count', 'unique', 'expired'):
            return self.fresh_val(self.ty(n), 'uc')
        return NotImplemented
    Interp.m_ptr = m_ptr

    def seq_of(self, base):
        c = self.rv(base)
        if not isinstance(c, VVec):
            raise Unsupported('sequence expected, got %r' % (c,))
        return c
    Interp.seq_of = seq_of

    def elem(self, base, i, et):
        if et.k == 'cls':
            c = self.load(base) if isinstance(base, LOCS) else base
            return Obj(self.rsel(z3.Select(c.arr, i)), et.name)
        return LElem(base if isinstance(base, LOCS) else LTmp(base, None), i, et)
    Interp.elem = elem

    def vec_append_range(self, c, a, b):
        src = self.load(a.loc)
        if isinstance(src, VMap):
            raise Unsupported('range of map')
        cnt = simp(b.pos - a.pos)
        arr = self.fresh('cat', c.arr.sort())
        j = z3.Int('j!c')
        self.assume(ForAll([j], z3.Select(arr, j) == z3.If(j < c.len, z3.Select(c.arr, j), z3.Select(src.arr, j - c.len + a.pos)),
                              patterns=[z3.Select(arr, j)]))
        return VVec(simp(c.len + cnt), arr, c.et)
    Interp.vec_append_range = vec_append_range

    def m_vec(self, bt, name, base, args, n):
        c = self.seq_of(base)
        if name in ('size', 'length'):
            return c.len
        if name == 'empty':
            return c.len == 0
        if name in ('begin', 'cbegin'):
            return VIter(base, z3.IntVal(0))
        if name in ('end', 'cend'):
            return VIter(base, c.len)
        if name in ('rbegin', 'rend', 'crbegin', 'crend'):
            raise Unsupported('reverse iterator')
        if name in ('at', 'operator[]'):
            i = self.scal(self.ev(args[0]))
            if name == 'at':
                if not self.branch(i < c.len):
                    raise CThrow('out_of_range')
            else:
                self.spec.index_check(self, i, c)
            return self.elem(base, i, c.et)
        if name == 'front':
            return self.elem(base, z3.IntVal(0), c.et)
        if name == 'back':
            return self.elem(base, simp(c.len - 1), c.et)
        if name in ('push_back', 'emplace_back'):
            if len(args) == 1:
                v = self.take(self.arg(args[0]))
            elif not args:
                v = self.default(c.et)
            else:
                raise Unsupported('emplace_back')
            c = self.seq_of(base)
            x = self.unpack(c.et, v)[0]
            self.store(base, VVec(simp(c.len + 1), z3.Store(c.arr, c.len, x), c.et))
            return self.elem(base, c.len, c.et) if name == 'emplace_back' else None
        if name in ('push_front',):
            v = self.take(self.arg(args[0]))
            self.vec_insert(base, z3.IntVal(0), v)
            return None
        if name == 'clear':
            self.store(base, self.default(bt))
            return None
        if name == 'pop_back':
            self.store(base, VVec(simp(c.len - 1), c.arr, c.et))
            return None
        if name in ('reserve', 'shrink_to_fit'):
            for a in args:
                self.ev(a)
            return None
        if name == 'resize':
            m = self.scal(self.ev(args[0]))
            arr = self.fresh('rsz', c.arr.sort())
            j = z3.Int('j!c')
            d = self.unpack(c.et, self.default(c.et))[0]
            self.assume(ForAll([j], z3.Select(arr, j) == z3.If(j < c.len, z3.Select(c.arr, j), d), patterns=[z3.Select(arr, j)]))
            self.store(base, VVec(m, arr, c.et))
            return None
        if name == 'erase':
            its = [self.rv(self.ev(a)) for a in args]
            if not all(isinstance(x, VIter) for x in its):
                raise Unsupported('erase')
            p = its[0].pos
            q = its[1].pos if len(its) == 2 else simp(p + 1)
            arr = self.fresh('ers', c.arr.sort())
            j = z3.Int('j!c')
            self.assume(ForAll([j], z3.Select(arr, j) == z3.If(j < p, z3.Select(c.arr, j), z3.Select(c.arr, j + (q - p))),
                                  patterns=[z3.Select(arr, j)]))
            self.store(base, VVec(simp(c.len - (q - p)), arr, c.et))
            return VIter(base, p)
        if name == 'insert':
            it = self.rv(self.ev(args[0]))
            if len(args) == 3:
                a, b = self.rv(self.ev(args[1])), self.rv(self.ev(args[2]))
                if isinstance(a, VIter) and isinstance(b, VIter) and self.implied(it.pos == c.len):
                    self.store(base, self.vec_append_range(c, a, b))
                    return VIter(base, it.pos)
                raise Unsupported('insert in the middle')
            if len(args) == 2:
                v = self.take(self.arg(args[1]))
                self.vec_insert(base, it.pos, v)
                return VIter(base, it.pos)
        if name == 'assign' and len(args) == 2:
            a, b = self.rv(self.ev(args[0])), self.rv(self.ev(args[1]))
            if isinstance(a, VIter):
                self.store(base, self.vec_append_range(self.default(bt), a, b))
                return None
        return NotImplemented
    Interp.m_vec = m_vec

    def vec_insert(self, base, p, v):
        c = self.seq_of(base)
        x = self.unpack(c.et, v)[0]
        arr = self.fresh('ins', c.arr.sort())
        j = z3.Int('j!c')
        self.assume(ForAll([j], z3.Select(arr, j) == z3.If(j < p, z3.Select(c.arr, j), z3.If(j == p, x, z3.Select(c.arr, j - 1))),
                              patterns=[z3.Select(arr, j)]))
        self.store(base, VVec(simp(c.len + 1), arr, c.et))
    Interp.vec_insert = vec_insert

    # ---- maps and sets
    def map_with(self, m, dom, val, size):
        keys = self.fresh('keys', m.keys.sort())
        pos = self.fresh('pos', m.pos.sort())
        r = VMap(dom, val, size, keys, pos, m.kt, m.vt)
        self.map_axioms(r)
        return r
    Interp.map_with = map_with

    def map_insert(self, base, key, val, overwrite=False):
        m = self.rv(base)
        d = self.branch(z3.Select(m.dom, key))
        if d:
            self.map_instance(m, z3.Select(m.pos, key))
            if overwrite and val is not None:
                self.store(base, VMap(m.dom, z3.Store(m.val, key, self.unpack(m.vt, val)[0]), m.size, m.keys, m.pos, m.kt, m.vt))
            return VIter(base, z3.Select(m.pos, key)), False
        nv = None
        if m.val is not None:
            nv = z3.Store(m.val, key, self.unpack(m.vt, val)[0])
        r = self.map_with(m, z3.Store(m.dom, key, True), nv, simp(m.size + 1))
        self.store(base, r)
        return VIter(base, z3.Select(r.pos, key)), True
    Interp.map_insert = map_insert

    def map_find(self, base, key):
        m = self.rv(base)
        p = z3.Select(m.pos, key)
        d = z3.Select(m.dom, key)
        self.assume_once(z3.Implies(d, z3.And(p >= 0, p < m.size, z3.Select(m.keys, p) == key)))
        return VIter(base, z3.If(d, p, m.size))
    Interp.map_find = map_find

    def map_erase_key(self, base, key):
        m = self.rv(base)
        r = self.map_with(m, z3.Store(m.dom, key, False), m.val, simp(m.size - 1))
        self.store(base, r)
    Interp.map_erase_key = map_erase_key

    def m_map(self, bt, name, base, args, n):
        m = self.rv(base)
        if not isinstance(m, VMap):
            raise Unsupported('map expected')
        if name == 'size':
            return m.size
        if name == 'empty':
            return m.size == 0
        if name in ('begin', 'cbegin'):
            return VIter(base, z3.IntVal(0))
        if name in ('end', 'cend'):
            return VIter(base, m.size)
        if name == 'find':
            k = self.scal(self.ev(args[0]))
            return self.map_find(base, k)
        if name in ('count', 'contains'):
            k = self.scal(self.ev(args[0]))
            d = z3.Select(m.dom, k)
            return d if self.ty(n).k == 'bool' else z3.If(d, z3.IntVal(1), z3.IntVal(0))
        if name == 'clear':
            self.store(base, self.default(bt))
            return None
        if name in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
            vals = [self.take(self.arg(a)) for a in args]
            if bt.k == 'set':
                it, ok = self.map_insert(base, self.scal(vals[0]), None)
            else:
                if len(vals) == 1 and isinstance(vals[0], VPair):
                    kk, vv = vals[0].a, vals[0].b
                elif len(vals) == 2:
                    kk, vv = vals
                else:
                    raise Unsupported('map insert')
                it, ok = self.map_insert(base, self.scal(kk), self.rv(vv), name == 'insert_or_assign')
            return VPair(it, z3.BoolVal(ok))
        if name == 'erase':
            a = self.rv(self.ev(args[0]))
            if isinstance(a, VIter):
                key = self.rsel(z3.Select(m.keys, a.pos))
                self.map_instance(m, a.pos)
                # find(k) gives pos[k]; recover the key syntactically when possible
                self.map_erase_key(base, key)
                return VIter(base, self.fresh('itpos'))
            key = self.scal(a)
            if self.branch(z3.Select(m.dom, key)):
                self.map_erase_key(base, key)
                return z3.IntVal(1)
            return z3.IntVal(0)
        if name == 'at':
            key = self.scal(self.ev(args[0]))
            if not self.branch(z3.Select(m.dom, key)):
                raise CThrow('out_of_range')
            return LMapVal(base, key, m.vt)
        if name == 'operator[]':
            key = self.scal(self.take(self.arg(args[0])))
            self.map_insert(base, key, self.default(m.vt))
            return LMapVal(base, key, m.vt)
        return NotImplemented
    Interp.m_map = m_map

    # ------------------------------------------------------------ operators
    CMP = {'operator==': '==', 'operator!=': '!=', 'operator<': '<', 'operator>': '>', 'operator<=': '<=', 'operator>=': '>='}

    def lib_operator(self, name, args, n):
        t0 = self.ty(args[0])
        if t0.k == 'lref':
            t0 = t0.a
        if name == 'operator->':
            v = self.rv(self.ev(args[0]))
            if isinstance(v, VIter):
                return self.iter_deref(v)
            return self.scal(v)
        if name == 'operator*' and len(args) == 1:
            v = self.rv(self.ev(args[0]))
            if isinstance(v, VIter):
                return self.iter_deref(v)
            if t0.k == 'ptr':
                return self.deref(v, t0.a, n)
            return NotImplemented
        if name in CMP:
            a, b = self.rv(self.ev(args[0])), self.rv(self.ev(args[1]))
            if isinstance(a, (VOpaque,)) or isinstance(b, (VOpaque,)):
                self.taint('comparison of opaque')
                return self.fresh('cmp', B)
            if t0.k == 'fn' or self.ty(args[1]).k == 'fn':
                f = a if t0.k == 'fn' else b
                tr = self.fn_truth(f)
                return tr if name == 'operator!=' else z3.Not(tr)
            if t0.k == 'str':
                return self.spec.str_cmp(self, CMP[name], a, b)
            if isinstance(a, VVec) or isinstance(a, VMap):
                raise Unsupported('container comparison')
            return self.binop(CMP[name], a, b, t0, self.ty(args[1]), T('bool'))
        if name == 'operator=':
            l = self.ev(args[0])
            if t0.k in ('opaque', 'guard', 'mutex'):
                self.arg(args[1])
                return l
            v = self.take(self.arg(args[1]))
            if t0.k == 'ptr' and isinstance(v, Obj):
                v = v.ref
            if t0.k == 'fn' and isinstance(v, z3.ExprRef):
                v = VFn('nil', id=z3.IntVal(0)) if z3.is_int_value(v) else VFn('opaque', id=v)
            if t0.k == 'str':
                v = self.spec.to_str(self, v)
            if t0.k == 'cls':
                raise Unsupported('class assignment')
            self.store(l, v)
            return l
        if name == 'operator[]':
            b = self.ev(args[0])
            if t0.k == 'vec':
                return self.m_vec(t0, 'operator[]', b, args[1:], n)
            if t0.k == 'map':
                return self.m_map(t0, 'operator[]', b, args[1:], n)
            if t0.k == 'str':
                return self.spec.str_method(self, 'operator[]', b, args[1:], n)
            v = self.rv(b)
            if isinstance(v, VIter):
                return self.iter_deref(VIter(v.loc, simp(v.pos + self.scal(self.ev(args[1])))))
            return NotImplemented
        if name in ('operator++', 'operator--'):
            l = self.ev(args[0])
            v = self.rv(l)
            d = 1 if name == 'operator++' else -1
            if isinstance(v, VIter):
                self.store(l, VIter(v.loc, simp(v.pos + d)))
                return LTmp(v, t0) if len(args) == 2 else l
            if t0.k == 'int':
                new = self.wrap(v + d, t0)
                self.store(l, new)
                return LTmp(v, t0) if len(args) == 2 else l
            return NotImplemented
        if name in ('operator+', 'operator-') and len(args) == 2:
            a, b = self.rv(self.ev(args[0])), self.rv(self.ev(args[1]))
            if isinstance(a, VIter) or isinstance(b, VIter):
                return self.binop(name[-1], a, b, t0, self.ty(args[1]), self.ty(n))
            if t0.k == 'time':
                return simp(self.scal(a) + self.scal(b) if name == 'operator+' else self.scal(a) - self.scal(b))
            if t0.k == 'str' or self.ty(args[1]).k == 'str':
                return self.spec.str_cat(self, a, b)
            return NotImplemented
        if name in ('operator+=', 'operator-='):
            l = self.ev(args[0])
            v = self.rv(l)
            b = self.rv(self.ev(args[1]))
            if isinstance(v, VIter):
                self.store(l, VIter(v.loc, simp(v.pos + self.scal(b) if name[-2] == '+' else v.pos - self.scal(b))))
                return l
            if t0.k in ('time',):
                self.store(l, simp(v + b if name[-2] == '+' else v - b))
                return l
            if t0.k == 'str':
                self.store(l, self.spec.str_cat(self, v, b))
                return l
            if t0.k == 'int':
                self.store(l, self.wrap(v + b if name[-2] == '+' else v - b, t0))
                return l
            return NotImplemented
        if name == 'operator!':
            return z3.Not(self.truth(self.ev(args[0])))
        if name == 'operator()':
            fv = self.rv(self.ev(args[0]))
            return self.call_fn(fv, [self.arg(a) for a in args[1:]], n)
        if name in ('operator<<', 'operator>>'):
            if t0.k == 'opaque':
                r = self.ev(args[0])
                try:
                    self.ev(args[1])
                except Unsupported:
                    pass
                return r
        return NotImplemented
    Interp.lib_operator = lib_operator


count_ge = z3.Function('count_ge', z3.ArraySort(I, I), I, I, I)
