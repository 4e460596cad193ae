"""C15: buffer.cxx over a flat byte memory.

Memory is a map from addresses to bytes; multi-byte accesses are little-endian compositions.  Every
access of the code under proof is checked to lie in an allocated block; every public operation gets
its full postcondition including the frame (all other bytes unchanged)."""
import z3
from core import *
from ctypes_ import T, U8, U64, INT32
from spec import Spec, slen
from engine import Root

TU = "buffer.cxx"
MEM = z3.ArraySort(I, I)
schar = z3.Function('str_char', I, I, I)


class MemSpec(Spec):
    """byte memory"""

    def M(self, ex):
        return ex.st.ghost['mem']

    def byte(self, ex, M, a):
        v = z3.Select(M, a)
        ex.assume_once(z3.And(v >= 0, v <= 255))
        return v

    def rd(self, ex, M, a, nb):
        v = None
        bs = [self.byte(ex, M, simp(a + i)) for i in range(nb)]
        if nb == 1:
            return bs[0]
        v = bs[0]
        for i in range(1, nb):
            v = v + bs[i] * (256 ** i)
        # facts about the composed value (consequences of the byte ranges, for the solver's benefit)
        if nb == 4:
            ex.assume_once(v / (2 ** 31) == z3.If(bs[3] >= 128, z3.IntVal(1), z3.IntVal(0)))
            ex.assume_once(v % 65536 == bs[0] + 256 * bs[1])
        return v

    def access(self, ex, a, nb, write):
        """the access must stay within one of the blocks the operation may touch"""
        bl = ex.st.ghost.get('blocks') or []
        ok = [z3.And(a >= lo, a + nb <= hi) for lo, hi in bl]
        ex.oblige(self.access_tag, 'memory access in bounds (%s)' % ('write' if write else 'read'), z3.Or(ok) if ok else z3.BoolVal(False))

    access_tag = 'C15'

    def mem_load(self, ex, a, t):
        nb = ex.sizeof(t)
        self.access(ex, a, nb, False)
        v = self.rd(ex, self.M(ex), a, nb)
        if t.k == 'int' and t.b:
            v = z3.If(v >= 2 ** (8 * nb - 1), v - 2 ** (8 * nb), v)
        return v

    def mem_store(self, ex, a, t, v):
        nb = ex.sizeof(t)
        self.access(ex, a, nb, True)
        v = ex.scal(v)
        M = self.M(ex)
        if nb == 1:
            x = v
            if t.b:
                x = z3.If(v < 0, v + 256, v)
            ex.gset('mem', z3.Store(M, a, simp(x)))
            return
        if t.k == 'int' and t.b:
            v = z3.If(v < 0, v + 2 ** (8 * nb), v)
        bs = [ex.fresh('b') for _ in range(nb)]
        s = bs[0]
        for i in range(1, nb):
            s = s + bs[i] * (256 ** i)
        ex.assume(z3.And([z3.And(b >= 0, b <= 255) for b in bs] + [s == v]))
        for i in range(nb):
            M = z3.Store(M, simp(a + i), bs[i])
        ex.gset('mem', M)

    def bitcast(self, ex, v, ft, tt):
        v = ex.rv(v)
        if isinstance(v, Obj):
            return v.ref
        return v

    def deref(self, ex, p, t):
        if t.k in ('int', 'bool'):
            return LMem(ex.scal(p), t)
        return Spec.deref(self, ex, p, t)

    def new_array(self, ex, n, t):
        xs = n['inner']
        cnt = ex.scal(ex.ev(xs[0]))
        r = ex.new_ref()
        sz = simp(cnt * ex.sizeof(t))
        nxt = ex.fresh('brk')
        ex.assume(nxt == r + sz + 1)
        ex.st.alloc = nxt
        ex.st.ghost['blocks'] = (ex.st.ghost.get('blocks') or []) + [(r, simp(r + sz))]
        ex.st.ghost['newblocks'] = (ex.st.ghost.get('newblocks') or []) + [(r, simp(r + sz))]
        return r

    def ghost_wf(self, ex, g):
        pass

    def function_model(self, ex, name, f, args, n):
        if name in ('memcpy', 'memmove'):
            d, s, c = [ex.scal(ex.rv(ex.ev(a))) for a in args]
            self.memcpy(ex, d, s, c)
            return d
        return NotImplemented

    def memcpy(self, ex, d, s, c):
        bl = ex.st.ghost.get('blocks') or []
        ex.oblige(self.access_tag, 'memcpy source in bounds', z3.Or([c == 0] + [z3.And(s >= lo, s + c <= hi) for lo, hi in bl]))
        ex.oblige(self.access_tag, 'memcpy destination in bounds', z3.Or([c == 0] + [z3.And(d >= lo, d + c <= hi) for lo, hi in bl]))
        M = self.M(ex)
        N = ex.fresh('mem', MEM)
        a = z3.Int('a!mc')
        ex.assume(ForAll([a], z3.Select(N, a) == z3.If(z3.And(a >= d, a < d + c), z3.Select(M, a - d + s), z3.Select(M, a)),
                            patterns=[z3.Select(N, a)]))
        ex.gset('mem', N)

    # strings: character sequences
    def str_method(self, ex, name, base, args, n):
        v = ex.rv(base)
        if name == 'operator[]' or name == 'at':
            i = ex.scal(ex.ev(args[0]))
            c = schar(v, i)
            ex.assume_once(z3.And(c >= -128, c <= 127))
            return LTmp(c, T('int', 8, True))
        return Spec.str_method(self, ex, name, base, args, n)

    # loops over memory: bytes outside the written window stay
    def loop_candidates(self, ex, s0, info):
        out = []
        if 'mem' in info['mod']['ghost']:
            M0 = s0.ghost['mem']
            a = z3.Int('a!lc')
            ptrs = []
            for key, v in s0.env.items():
                t = info['mod']['envt'].get(key)
                if t is not None and t.k == 'ptr' and isinstance(v, z3.ExprRef) and t.name == 'raw':
                    ptrs.append((key, v))
            strs = []
            for fr in ex.frames[-1:]:
                for l in fr.vars.values():
                    if isinstance(l, (LVar, LField, LTmp)) and l.t.k == 'str':
                        strs.append(ex.load(l))
            for key, p in ptrs:
                for nm, v0, f in info['ints']:
                    out.append(('mem changes only in [p+entry, p+%s)' % nm, lambda ex, p=p, f=f, v0=v0: ForAll(
                        [a], z3.Implies(z3.Or(a < p + v0, a >= p + f(ex)), z3.Select(self.M(ex), a) == z3.Select(M0, a)),
                        patterns=[z3.Select(self.M(ex), a)])))
                    for sv in strs:
                        j = z3.Int('j!lc')
                        out.append(('bytes written are the characters', lambda ex, p=p, f=f, sv=sv: ForAll(
                            [j], z3.Implies(z3.And(j >= 0, j < f(ex)),
                                            z3.Select(self.M(ex), p + j) == z3.If(schar(sv, j) < 0, schar(sv, j) + 256, schar(sv, j))),
                            patterns=[schar(sv, j)])))
        else:
            # scanning loops: every byte passed is non-zero
            M0 = s0.ghost.get('mem')
            j = z3.Int('j!lc')
            if M0 is not None:
                for key, v in s0.env.items():
                    t = info['mod']['envt'].get(key)
                    if t is not None and t.k == 'ptr' and isinstance(v, z3.ExprRef) and t.name == 'raw' and key not in info['mod']['env']:
                        for nm, v0, f in info['ints']:
                            out.append(('bytes passed are not NUL', lambda ex, v=v, f=f: ForAll(
                                [j], z3.Implies(z3.And(j >= 0, j < f(ex)), z3.Select(M0, v + j) != 0), patterns=[z3.Select(M0, v + j)])))
        return out


class BufferSpec(MemSpec):
    name = 'buffer'

    # observers: the code's own size(), pos() and data()
    def obs(self, ex, p):
        rec, ex.record = ex.record, False
        bl = ex.st.ghost.get('blocks')
        try:
            ob = Obj(p, 'buffer')
            sz = ex.scal(ex.inline(self.m(ex, 'size'), ob, []))
            ps = ex.scal(ex.inline(self.m(ex, 'pos', 0), ob, []))
            d = ex.scal(ex.inline(self.m(ex, 'data'), ob, []))
            return sz, ps, d
        finally:
            ex.record = rec

    def m(self, ex, name, nparams=0):
        for f in ex.tu.by_qual.get('buffer::' + name, []):
            if len(f.params) == nparams:
                return f
        raise Unsupported('buffer::' + name)


def sym_block(ex, sp, name):
    """an arbitrary well-formed block with arbitrary contents"""
    p = ex.fresh(name)
    M = ex.st.ghost['mem']
    ex.assume(z3.And(p >= 8, p < 2 ** 50))
    big = z3.Select(M, p + 3) >= 128
    sp.rd(ex, M, p, 4)
    ex.st.ghost['blocks'] = ex.st.ghost.get('blocks', []) + [(p, simp(p + 8))]
    sz, ps, d = sp.obs(ex, p)
    ex.st.ghost['blocks'] = ex.st.ghost['blocks'][:-1]
    # named values keep the terms small; the header size is whatever the code's layout gives (4 or 8)
    h = simp(d - ps - p)
    ex.branch(big)
    for hv in (8, 4):
        if ex.implied(h == hv):
            h = z3.IntVal(hv)
            break
    szc, psc = ex.fresh('size'), ex.fresh('pos')
    ex.assume(z3.And(szc == sz, psc == ps))
    sz, ps = szc, psc
    ex.assume(d == p + h + ps)
    d = simp(p + h + ps)
    end = simp(p + h + sz)
    # representation invariant established by alloc and kept by every operation
    ex.assume(z3.And(ps <= sz, sz < 2 ** 31, ps >= 0, sz >= 0))
    ex.assume(z3.Implies(z3.Not(big), sz < 0x8000))
    ex.assume(z3.And(h >= 4, h <= 8))
    ex.assume(end < ex.st.alloc)
    ex.st.ghost['blocks'] = ex.st.ghost['blocks'] + [(p, end)]
    return dict(p=p, size=sz, pos=ps, data=d, end=end, h=h, big=big)


def small_or_big(ex, b):
    ex.branch(b['big'])


def roots(tu, tags=None):
    sp = BufferSpec(tags)
    out = []
    a = z3.Int('a!f')

    def base(ex):
        ex.st.ghost = {'mem': z3.Const('M0', MEM), 'blocks': [], 'newblocks': []}
        ex.assume(ex.st.alloc < 2 ** 52)
        ex.assume(ex.st.alloc > 100)

    def frame(ex, c, b, lo, hi, kind):
        """bytes outside [lo,hi) and outside the header of b are unchanged"""
        M0, M1 = c['old'].ghost['mem'], ex.st.ghost['mem']
        hdr = z3.And(a >= b['p'], a < b['p'] + b['h'])
        ex.oblige('C15', 'no other byte changes', z3.Implies(
            z3.And(a < c['old'].alloc, z3.Not(hdr), z3.Or(a < lo, a >= hi)), z3.Select(M1, a) == z3.Select(M0, a)), assume=False)

    def unchanged(ex, c, label):
        M0, M1 = c['old'].ghost['mem'], ex.st.ghost['mem']
        if M0.eq(M1):
            ex.oblige('C15', label, True)
            return
        ex.oblige('C15', label, z3.Implies(a < c['old'].alloc, z3.Select(M1, a) == z3.Select(M0, a)), assume=False)

    def wellformed(ex, c, b, label='still well-formed'):
        sz, ps, d = sp.obs(ex, b['p'])
        M = ex.st.ghost['mem']
        sp.rd(ex, M, b['p'], 4)
        big = z3.Select(M, b['p'] + 3) >= 128
        ex.oblige('C15', label, z3.And(ps <= sz, ps >= 0, z3.Implies(z3.Not(big), sz < 0x8000)), assume=False)
        return sz, ps, d

    def op(name, nargs, pick, need, mkargs, effect):
        """an operation that needs `need` bytes, or throws and changes nothing"""
        fs = [f for f in tu.by_qual.get('buffer::' + name, []) if len(f.params) == nargs and pick(f)]
        if not fs:
            raise Unsupported('buffer::%s not found' % name)
        f = fs[0]

        def setup(ex):
            base(ex)
            b = sym_block(ex, sp, 'buf')
            vals, c = mkargs(ex)
            c['b'] = b
            return Obj(b['p'], 'buffer'), vals, c

        def run(ex, this, vals, c):
            ex.branch(c['b']['big'])
            if 'src' in c:
                ex.branch(c['src']['big'])
            return ex.inline(f, this, vals)

        def post(ex, kind, ret, c):
            b = c['b']
            k = need(ex, c)
            if kind == 'throw':
                if k is not None:
                    ex.oblige('C15', '%s fails only when it does not fit' % name, b['size'] - b['pos'] < k, assume=False)
                unchanged(ex, c, '%s: a failing operation changes nothing' % name)
                return
            effect(ex, ret, c, b, k)
        out.append(Root('buffer::%s(%s)' % (name, f.type.split('(', 1)[1].rstrip(')')), sp, tu, setup, post, run=run, func=f))

    def adv(ex, c, b, k, label='position advances by the size of the value'):
        sz, ps, d = wellformed(ex, c, b)
        ex.oblige('C15', label, z3.And(sz == b['size'], ps == b['pos'] + k), assume=False)
        ex.oblige('C15', 'value fits between position and end', b['pos'] + k <= b['size'], assume=False)

    def noargs(ex):
        return [], {}

    def T_(f, s):
        return s in f.type

    # reads
    def rd_effect(nb, signed):
        def eff(ex, ret, c, b, k):
            M0 = c['old'].ghost['mem']
            v = sp.rd(ex, M0, b['data'], nb)
            if signed:
                v = z3.If(v >= 2 ** (8 * nb - 1), v - 2 ** (8 * nb), v)
            ex.oblige('C15', 'value read is the value stored at the position', ret == v, assume=False)
            frame(ex, c, b, b['end'], b['end'], 'read')
            adv(ex, c, b, k)
        return eff
    op('get_int', 0, lambda f: True, lambda ex, c: 4, noargs, rd_effect(4, True))
    op('get_ulong', 0, lambda f: True, lambda ex, c: 8, noargs, rd_effect(8, False))
    op('get_byte', 0, lambda f: True, lambda ex, c: 1, noargs, rd_effect(1, False))

    # writes: the bytes stored are exactly those the matching read composes
    def wr_args(t):
        def mk(ex):
            v = ex.fresh_val(t, 'val')
            return [v], {'v': v}
        return mk

    def wr_effect(nb, signed):
        def eff(ex, ret, c, b, k):
            v = c['v']
            u = z3.If(v < 0, v + 2 ** (8 * nb), v) if signed else v
            M1 = ex.st.ghost['mem']
            bs = [sp.byte(ex, M1, simp(b['data'] + i)) for i in range(nb)]
            ex.oblige('C15', 'stored bytes read back as the value', sum([bs[i] * 256 ** i for i in range(1, nb)], bs[0]) == u, assume=False)
            frame(ex, c, b, b['data'], simp(b['data'] + nb), 'write')
            adv(ex, c, b, k)
        return eff
    op('put', 1, lambda f: T_(f, '(byte)') or T_(f, '(unsigned char)'), lambda ex, c: 1, wr_args(U8), wr_effect(1, False))
    op('put', 1, lambda f: T_(f, '(int32)') or T_(f, '(int)'), lambda ex, c: 4, wr_args(INT32), wr_effect(4, True))
    op('put', 1, lambda f: T_(f, '(ulong)'), lambda ex, c: 8, wr_args(U64), wr_effect(8, False))

    # strings
    def str_args(ex):
        s = ex.fresh('str')
        ex.assume(z3.And(slen(s) >= 0, slen(s) < 2 ** 62))
        j = z3.Int('j!s')
        ex.assume(ForAll([j], z3.And(schar(s, j) >= -128, schar(s, j) <= 127), patterns=[schar(s, j)]))
        return [LTmp(s, T('str'))], {'s': s}

    def str_effect(ex, ret, c, b, k):
        M1 = ex.st.ghost['mem']
        j = ex.fresh('jj')
        s = c['s']
        ex.oblige('C15', 'stored characters are those of the string, in order', z3.Implies(
            z3.And(j >= 0, j < slen(s)), z3.Select(M1, b['data'] + j) == z3.If(schar(s, j) < 0, schar(s, j) + 256, schar(s, j))), assume=False)
        ex.oblige('C15', 'string is terminated', z3.Select(M1, b['data'] + slen(s)) == 0, assume=False)
        frame(ex, c, b, b['data'], b['data'] + slen(s) + 1, 'write')
        adv(ex, c, b, k)
    op('put', 1, lambda f: 'string' in f.type, lambda ex, c: slen(c['s']) + 1, str_args, str_effect)

    def getstr_effect(ex, ret, c, b, k):
        M0 = c['old'].ghost['mem']
        j = z3.Int('j!g')
        if ex.branch(ret == 0):
            # nothing found: no terminator in the rest, or an empty string; nothing changes
            sz, ps, d = wellformed(ex, c, b)
            n = ex.fresh('n')
            ex.oblige('C15', 'a non-empty terminated string is always found', z3.Not(z3.And(
                n > 0, b['pos'] + n < b['size'], z3.Select(M0, b['data'] + n) == 0,
                ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(M0, b['data'] + j) != 0), patterns=[z3.Select(M0, b['data'] + j)]))), assume=False)
            unchanged(ex, c, 'no string: nothing changes')
            return
        sz, ps, d = wellformed(ex, c, b)
        n = ps - 1 - b['pos']
        jj = ex.fresh('jj')
        ex.oblige('C15', 'string starts at the position', ret == b['data'], assume=False)
        ex.oblige('C15', 'string ends at its terminator inside the buffer', z3.And(
            n >= 0, sz == b['size'], ps <= b['size'], z3.Select(M0, b['data'] + n) == 0), assume=False)
        ex.oblige('C15', 'no terminator inside the string', z3.Implies(z3.And(jj >= 0, jj < n), z3.Select(M0, b['data'] + jj) != 0), assume=False)
        frame(ex, c, b, b['end'], b['end'], 'read')
    op('get_str', 0, lambda f: True, lambda ex, c: None, noargs, getstr_effect)

    # nested buffers
    def buf_args(ex):
        s = sym_block(ex, sp, 'src')
        return [Obj(s['p'], 'buffer')], {'src': s}

    def disjoint(x, y):
        return z3.Or(x['end'] <= y['p'], y['end'] <= x['p'])

    def put_buf_args(ex):
        vals, c = buf_args(ex)
        b0 = ex.st.ghost['blocks'][0]
        s = c['src']
        ex.assume(z3.Or(b0[1] <= s['p'], s['end'] <= b0[0]))
        return vals, c

    def putbuf_effect(ex, ret, c, b, k):
        s = c['src']
        M0, M1 = c['old'].ghost['mem'], ex.st.ghost['mem']
        n = s['size'] - s['pos']
        jj = ex.fresh('jj')
        ex.oblige('C15', 'bytes of the other buffer are copied in order', z3.Implies(
            z3.And(jj >= 0, jj < n), z3.Select(M1, b['data'] + jj) == z3.Select(M0, s['data'] + jj)), assume=False)
        frame(ex, c, b, b['data'], b['data'] + n, 'write')
        adv(ex, c, b, n)
    op('put', 1, lambda f: 'buffer' in f.type, lambda ex, c: c['src']['size'] - c['src']['pos'], put_buf_args, putbuf_effect)

    def get_buf_args(ex):
        vals, c = put_buf_args(ex)
        l = LVar(('root', 'dst'), T('ptr', T('cls', name='buffer'), name='unique'))
        ex.st.env[l.key] = c['src']['p']
        return [l], c

    def getbuf_effect(ex, ret, c, b, k):
        s = c['src']
        M0, M1 = c['old'].ghost['mem'], ex.st.ghost['mem']
        n = s['size'] - s['pos']
        jj = ex.fresh('jj')
        ex.oblige('C15', 'destination holds the bytes at the position', z3.Implies(
            z3.And(jj >= 0, jj < n), z3.Select(M1, s['data'] + jj) == z3.Select(M0, b['data'] + jj)), assume=False)
        frame(ex, c, b, s['data'], s['data'] + n, 'write')
        adv(ex, c, b, n)
        sz2, ps2, d2 = sp.obs(ex, s['p'])
        ex.oblige('C15', 'destination keeps size and position', z3.And(sz2 == s['size'], ps2 == s['pos']), assume=False)
    op('get', 1, lambda f: True, lambda ex, c: c['src']['size'] - c['src']['pos'], get_buf_args, getbuf_effect)

    # set position
    def pos_args(ex):
        v = ex.fresh_val(U64, 'p')
        return [v], {'v': v}

    def pos_effect(ex, ret, c, b, k):
        sz, ps, d = wellformed(ex, c, b)
        ex.oblige('C15', 'position is set, limited to the size', z3.And(
            sz == b['size'], ps == z3.If(c['v'] > b['size'], b['size'], c['v'])), assume=False)
        frame(ex, c, b, b['end'], b['end'], 'pos')
    op('pos', 1, lambda f: True, lambda ex, c: None, pos_args, pos_effect)

    # observers do not write and address the bytes between header and end
    for nm in ('size', 'pos', 'data'):
        def eff(ex, ret, c, b, k, nm=nm):
            unchanged(ex, c, '%s() changes nothing' % nm)
            if nm == 'data':
                ex.oblige('C15', 'data() points at the position inside the block', z3.And(
                    ret >= b['p'] + b['h'], ret <= b['end'], b['end'] - ret == b['size'] - b['pos']), assume=False)
        op(nm, 0, lambda f: True, lambda ex, c: None, noargs, eff)

    # allocation
    fa = [f for f in tu.by_qual.get('buffer::alloc', [])][0]

    def asetup(ex):
        base(ex)
        v = ex.fresh_val(U64, 'size')
        return None, [v], {'v': v}

    def apost(ex, kind, ret, c):
        if kind == 'throw':
            ex.oblige('C15', 'alloc fails only from 2^31 on', c['v'] >= 2 ** 31, assume=False)
            return
        ex.oblige('C15', 'alloc succeeds only below 2^31', c['v'] < 2 ** 31, assume=False)
        p = ex.scal(ret)
        sz, ps, d = sp.obs(ex, p)
        M = ex.st.ghost['mem']
        sp.rd(ex, M, p, 4)
        big = z3.Select(M, p + 3) >= 128
        ex.oblige('C15', 'a new buffer has the requested size and position 0', z3.And(sz == c['v'], ps == 0), assume=False)
        ex.oblige('C15', 'a new buffer is well-formed', z3.Implies(z3.Not(big), sz < 0x8000), assume=False)
        nb = ex.st.ghost['newblocks']
        ex.oblige('C15', 'a new buffer owns its bytes', z3.Or([z3.And(p == lo, d - ps + sz <= hi, d >= lo) for lo, hi in nb]) if nb else False, assume=False)
        unchanged(ex, c, 'alloc changes no existing byte')
    out.append(Root('buffer::alloc', sp, tu, asetup, apost, func=fa))

    # copy
    fc = [f for f in tu.by_qual.get('buffer::copy', [])][0]

    def csetup(ex):
        base(ex)
        s = sym_block(ex, sp, 'src')
        return None, [Obj(s['p'], 'buffer')], {'src': s}

    def crun(ex, this, vals, c):
        ex.branch(c['src']['big'])
        return ex.inline(fc, this, vals)

    def cpost(ex, kind, ret, c):
        s = c['src']
        ex.oblige('C15', 'copy never fails', kind == 'return', assume=False)
        if kind != 'return':
            return
        p = ex.scal(ret)
        sz, ps, d = sp.obs(ex, p)
        M0, M1 = c['old'].ghost['mem'], ex.st.ghost['mem']
        jj = ex.fresh('jj')
        n = s['size'] - s['pos']
        ex.oblige('C15', 'copy has the remaining bytes as its contents, at position 0', z3.And(sz == n, ps == 0), assume=False)
        ex.oblige('C15', 'copied bytes are equal', z3.Implies(z3.And(jj >= 0, jj < n), z3.Select(M1, d + jj) == z3.Select(M0, s['data'] + jj)), assume=False)
        unchanged(ex, c, 'copy changes no existing byte')
    out.append(Root('buffer::copy', sp, tu, csetup, cpost, run=crun, func=fc))
    return out


if __name__ == '__main__':
    import cast, sys
    from engine import verify, report
    tu = cast.load('buffer.cxx')
    sel = sys.argv[1:]
    for r in roots(tu):
        if sel and not any(s in r.name for s in sel):
            continue
        report(verify(r, tmo=6000))
