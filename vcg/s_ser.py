"""C16: serialisation round trips.

A buffer is (size, position, contents); its contents are known by segments: seg(c, o, l) stands for the l bytes at offset o of
contents c.  tokU/tokI/tokB/tokS give the segment that encodes a 64-bit, 32-bit, 8-bit value or a terminated string.  The
contracts of the buffer operations below are those proved byte by byte from buffer.cxx by the check of C15.
X is the configuration that a root talks about: n servers, server j has id xid(j) and endpoint xep(j), and ps(j) is the length of
the serialised form of the first j servers."""
import os, tempfile
import z3
from core import *
from ctypes_ import T, U64, U8, INT32
from spec import Spec, Contract, slen
from engine import Root
import cast

SRC = ['srv_config', 'cluster_config', 'snapshot', 'snapshot_sync_req']
seg = z3.Function('seg', I, I, I, I)
TOK = {k: z3.Function('tok' + k, I, I) for k in 'UIBS'}
UN = {k: z3.Function('un' + k, I, I) for k in 'UIB'}
dptr = z3.Function('dptr', I, I, I)
xid = z3.Function('xid', I, I)
xep = z3.Function('xep', I, I)
ps = z3.Function('ps', I, I)
ps0 = z3.Function('ps0', I, I)
BIG = 2 ** 29


def load():
    inc = '#include "log_entry.hxx"\n' + ''.join('#include "%s"\n' % os.path.join(cast.REPO, 'src', s + '.cxx') for s in SRC)
    d = tempfile.mkdtemp(prefix='vcg')
    p = os.path.join(d, 'ser_unity.cxx')
    try:
        with open(p, 'w') as f:
            f.write(inc)
        return cast.TU(p)
    finally:
        try:
            os.unlink(p)
            os.rmdir(d)
        except OSError:
            pass


def srv_at(c, p, i, e):
    return z3.And(seg(c, p, 4) == TOK['I'](i), seg(c, p + 4, slen(e) + 1) == TOK['S'](e))


class X:
    """the configuration a root talks about"""

    def __init__(self):
        self.n, self.log, self.prev = z3.Ints('X!n X!log X!prev')

    def axioms(self, ex):
        j, i = z3.Ints('j!x i!x')
        ex.assume(z3.And(self.n >= 0, self.n < 2 ** 31, self.log >= 0, self.log < 2 ** 64, self.prev >= 0, self.prev < 2 ** 64))
        ex.assume(ForAll([j], z3.And(xid(j) >= -2 ** 31, xid(j) < 2 ** 31), patterns=[xid(j)]))
        ex.assume(ForAll([j], z3.And(xep(j) > 0, slen(xep(j)) > 0, slen(xep(j)) < BIG), patterns=[xep(j)]))
        # prefix sums; one unfolding per term
        ex.assume(ForAll([j], z3.And(ps(j) == ps0(j), z3.Implies(j > 0, ps(j) == ps0(j - 1) + 5 + slen(xep(j - 1)))), patterns=[ps(j)]))
        ex.assume(ps(0) == 0)
        # every earlier server ends before a later one begins (lemma, proved in root "prefix sums")
        ex.assume(ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j <= self.n), ps(i) + 5 + slen(xep(i)) <= ps(j)),
                         patterns=[z3.MultiPattern(ps(i), ps(j))]))
        ex.assume(ForAll([j], z3.Implies(z3.And(0 <= j, j <= self.n), z3.And(ps(j) >= 0, ps(j) <= ps(self.n))), patterns=[ps(j)]))
        ex.assume(ps(self.n) < BIG)

    def size(self):
        return ps(self.n) + 20

    def at(self, c, p):
        """contents c hold X at offset p"""
        j = z3.Int('j!at')
        return z3.And(seg(c, p, 8) == TOK['U'](self.log), seg(c, p + 8, 8) == TOK['U'](self.prev), seg(c, p + 16, 4) == TOK['I'](self.n),
                      ForAll([j], z3.Implies(z3.And(j >= 0, j < self.n), srv_at(c, p + 20 + ps(j), xid(j), xep(j))),
                             patterns=[ps(j)]))

    def obj(self, ex, r, lo=None):
        """the cluster_config r is X"""
        sv = ex.get('cluster_config.servers_', r)
        return z3.And(ex.get('cluster_config.log_idx_', r) == self.log, ex.get('cluster_config.prev_log_idx_', r) == self.prev,
                      sv.len == self.n, self.list(ex, sv.arr, self.n, lo))

    def list(self, ex, arr, n, lo=None):
        j = z3.Int('j!ob')
        e = z3.Select(arr, j)
        return ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(
            e > (0 if lo is None else lo - 1), e < ex.st.alloc, z3.Select(ex.harr('srv_config.id_', I), e) == xid(j),
            z3.Select(ex.harr('srv_config.endpoint_', I), e) == xep(j))), patterns=[z3.Select(arr, j)])


class SerSpec(Spec):
    name = 'ser'

    def __init__(self, tags=None):
        Spec.__init__(self, tags)
        self.X = X()
        self.root = None

    def init(self, ex):
        v = z3.Int('v!t')
        for k in UN:
            ex.assume(ForAll([v], UN[k](TOK[k](v)) == v, patterns=[TOK[k](v)]))
        ex.assume(ex.st.alloc > 0)
        self.X.axioms(ex)

    # ---------------------------------------------------------------- buffers
    def bf(self, ex, n, r):
        return ex.load(LField('buffer#' + n, r, U64))

    def bset(self, ex, n, r, v):
        ex.store(LField('buffer#' + n, r, U64), simp(v))

    def cid(self, ex, r):
        return ex.load(LField('buffer#cid', r, T('str')))

    def cset(self, ex, r, c):
        ex.store(LField('buffer#cid', r, T('str')), c)

    def new_buffer(self, ex, size):
        r = ex.new_ref()
        self.bset(ex, 'size', r, size)
        self.bset(ex, 'pos', r, z3.IntVal(0))
        self.cset(ex, r, ex.fresh('cid'))
        return r

    def sym_buffer(self, ex, name):
        """an arbitrary buffer"""
        r = ex.new_ref()
        s, p, c = z3.Ints('%s!size %s!pos %s!cid' % (name, name, name))
        ex.assume(z3.And(s >= 0, s < BIG, p >= 0, p <= s))
        self.bset(ex, 'size', r, s)
        self.bset(ex, 'pos', r, p)
        self.cset(ex, r, c)
        return r

    def write(self, ex, r, off, n, what):
        """contents change in [off, off + n) only; what(new contents) says how"""
        c0 = self.cid(ex, r)
        c = ex.fresh('cid')
        o, l = z3.Ints('o!w l!w')
        ex.assume(ForAll([o, l], z3.Implies(z3.Or(o + l <= off, o >= off + n), seg(c, o, l) == seg(c0, o, l)), patterns=[seg(c, o, l)]))
        ex.assume(what(c))
        self.cset(ex, r, c)

    def copy_in(self, ex, r, off, n, cs, so):
        o, l = z3.Ints('o!c l!c')
        self.write(ex, r, off, n, lambda c: ForAll([o, l], z3.Implies(
            z3.And(o >= off, l >= 0, o + l <= off + n), seg(c, o, l) == seg(cs, o - off + so, l)), patterns=[seg(c, o, l)]))

    def room(self, ex, r, n):
        p = self.bf(ex, 'pos', r)
        if not ex.branch(p + n <= self.bf(ex, 'size', r)):
            raise CThrow('overflow_error')
        return p

    def m_buffer(self, ex, name, obj, args, n, f):
        r = ex.scal(obj)
        if name == 'size':
            return self.bf(ex, 'size', r)
        if name == 'pos':
            if not args:
                return self.bf(ex, 'pos', r)
            v, s = ex.scal(ex.ev(args[0])), self.bf(ex, 'size', r)
            self.bset(ex, 'pos', r, z3.If(v > s, s, v))
            return None
        if name in ('get_int', 'get_ulong', 'get_byte'):
            k, w, t = {'get_int': ('I', 4, INT32), 'get_ulong': ('U', 8, U64), 'get_byte': ('B', 1, U8)}[name]
            p = self.room(ex, r, w)
            self.bset(ex, 'pos', r, p + w)
            v = UN[k](seg(self.cid(ex, r), p, w))
            ex.assume_range(v, t)
            return v
        if name == 'get_str':
            p, s, c = self.bf(ex, 'pos', r), self.bf(ex, 'size', r), self.cid(ex, r)
            v = ex.fresh('str')
            x = z3.Int('x!s')
            ex.assume(ForAll([x], z3.Implies(z3.And(x > 0, slen(x) > 0, p + slen(x) + 1 <= s, seg(c, p, slen(x) + 1) == TOK['S'](x)), v == x),
                             patterns=[TOK['S'](x)]))
            ex.assume(z3.And(v >= 0, z3.Implies(v != 0, z3.And(slen(v) > 0, p + slen(v) + 1 <= s))))
            self.bset(ex, 'pos', r, z3.If(v == 0, p, p + slen(v) + 1))
            return v
        if name == 'get':
            d = ex.scal(ex.rv(ex.ev(args[0])))
            m = self.bf(ex, 'size', d) - self.bf(ex, 'pos', d)
            p = self.room(ex, r, m)
            self.copy_in(ex, d, self.bf(ex, 'pos', d), m, self.cid(ex, r), p)
            self.bset(ex, 'pos', r, p + m)
            return None
        if name == 'put':
            ty = f.type if f is not None else ''
            if 'buffer' in ty:
                b = ex.scal(ex.ev(args[0]))
                m = self.bf(ex, 'size', b) - self.bf(ex, 'pos', b)
                p = self.room(ex, r, m)
                self.copy_in(ex, r, p, m, self.cid(ex, b), self.bf(ex, 'pos', b))
                self.bset(ex, 'pos', r, p + m)
                return None
            if 'string' in ty:
                v = ex.scal(ex.rv(ex.ev(args[0])))
                ex.assume_once(z3.And(slen(v) >= 0, slen(v) < 2 ** 62))
                k, w = 'S', slen(v) + 1
            else:
                v = ex.scal(ex.rv(ex.ev(args[0])))
                k, w = ('U', 8) if 'ulong' in ty or 'uint64' in ty or 'unsigned long' in ty else \
                    ('I', 4) if 'int32' in ty or '(int)' in ty else ('B', 1)
            p = self.room(ex, r, w)
            self.write(ex, r, p, w, lambda c: seg(c, p, w) == TOK[k](v))
            self.bset(ex, 'pos', r, p + w)
            return None
        if name == 'data':
            a = dptr(r, self.bf(ex, 'pos', r))
            ex.assume(a > 0)
            return a
        return NotImplemented

    def deref(self, ex, p, t):
        return Spec.deref(self, ex, p, t)

    def pointer(self, ex, v):
        """pointer into a buffer -> (buffer, offset)"""
        v = simp(v)
        if v.decl().eq(dptr):
            return v.arg(0), v.arg(1)
        if z3.is_add(v):
            ds = [a for a in v.children() if a.decl().eq(dptr)]
            if len(ds) == 1:
                off = ds[0].arg(1)
                for a in v.children():
                    if not a.eq(ds[0]):
                        off = off + a
                return ds[0].arg(0), off
        raise Unsupported('pointer %s' % v)

    def function_model(self, ex, name, f, args, n):
        q = f.qual if f is not None else name
        if q in ('buffer::alloc', 'buffer::copy'):
            if q == 'buffer::alloc':
                s = ex.scal(ex.rv(ex.ev(args[0])))
                if not ex.branch(s < 2 ** 31):
                    raise CThrow('out_of_range')
                return self.new_buffer(ex, s)
            b = ex.scal(ex.ev(args[0]))
            m = simp(self.bf(ex, 'size', b) - self.bf(ex, 'pos', b))
            r = self.new_buffer(ex, m)
            self.copy_in(ex, r, z3.IntVal(0), m, self.cid(ex, b), self.bf(ex, 'pos', b))
            return r
        if name in ('memcpy', 'memmove'):
            d, s, c = [ex.scal(ex.rv(ex.ev(a))) for a in args[:3]]
            (dr, do), (sr, so) = self.pointer(ex, d), self.pointer(ex, s)
            ex.oblige('C16', 'a block copy stays inside both buffers', z3.And(
                c >= 0, do >= 0, so >= 0, do + c <= self.bf(ex, 'size', dr), so + c <= self.bf(ex, 'size', sr)))
            self.copy_in(ex, dr, do, c, self.cid(ex, sr), so)
            return d
        return NotImplemented

    def method_model(self, ex, cls, name, obj, args, n, f):
        if cls == 'buffer':
            return self.m_buffer(ex, name, obj, args, n, f)
        return NotImplemented

    # ---------------------------------------------------------------- loops
    def loop_candidates(self, ex, s0, info):
        out = []
        mod, ints = info['mod'], info['ints']
        j, o, l = z3.Ints('j!l o!l l!l')
        idx = [(nm, v0, f) for nm, v0, f in ints if nm.startswith('it') or nm.startswith('len') or nm.endswith('.len') or nm.startswith('v')]
        n = self.X.n
        for nm, v0, f in idx:
            out.append(('%s at most the number of servers' % nm, lambda ex, f=f: z3.And(f(ex) >= 0, f(ex) <= n)))
            out.append(('%s counts down from the number of servers' % nm, lambda ex, f=f: z3.And(f(ex) >= -1, f(ex) <= n)))
            for n2, w0, h in ints:
                if n2 != nm:
                    out.append(('%s goes with the length of the first %s servers' % (n2, nm), lambda ex, f=f, h=h, v0=v0, w0=w0: h(ex) == w0 + ps(f(ex)) - ps(v0)))
                    out.append(('%s goes with the length of all but %s servers' % (n2, nm), lambda ex, f=f, h=h, v0=v0, w0=w0: h(ex) == w0 + ps(n - f(ex)) - ps(n - v0)))
                    out.append(('%s and %s make all servers' % (n2, nm), lambda ex, f=f, h=h: h(ex) + f(ex) == n))
        for key in mod['env']:
            v = s0.env.get(key)
            if isinstance(v, VVec) and v.et is not None and v.et.k == 'ptr':
                def vec(ex, key=key):
                    w = ex.st.env[key]
                    b = z3.Select(w.arr, j)
                    H = lambda k: z3.Select(ex.harr('buffer#' + k, I), b)
                    return ForAll([j], z3.Implies(z3.And(j >= 0, j < w.len), z3.And(
                        b > 0, b < ex.st.alloc, H('pos') == 0, H('size') == 5 + slen(xep(j)), srv_at(H('cid'), z3.IntVal(0), xid(j), xep(j)))),
                        patterns=[z3.Select(w.arr, j)])
                out.append(('collected buffers hold the servers in order', vec))
        t, refs = mod['heap'].get('buffer#cid', (None, None))
        for r in refs or []:
            c0 = z3.Select(ex.harr('buffer#cid', I), r) if 'buffer#cid' not in s0.heap else z3.Select(s0.heap['buffer#cid'], r)
            p0 = z3.Select(s0.heap['buffer#pos'], r)
            cur = lambda ex, r=r: z3.Select(ex.harr('buffer#cid', I), r)
            out.append(('contents before the position at entry stay', lambda ex, cur=cur, c0=c0, p0=p0: ForAll([o, l], z3.Implies(
                o + l <= p0, seg(cur(ex), o, l) == seg(c0, o, l)), patterns=[seg(cur(ex), o, l)])))
            for nm, v0, f in idx:
                out.append(('the first %s servers are written' % nm, lambda ex, cur=cur, p0=p0, f=f: ForAll([j], z3.Implies(
                    z3.And(j >= 0, j < f(ex)), srv_at(cur(ex), p0 + ps(j), xid(j), xep(j))), patterns=[ps(j)])))
        t, refs = mod['heap'].get('cluster_config.servers_', (None, None))
        for r in refs or []:
            def lst(ex, r=r):
                sv = ex.get('cluster_config.servers_', r)
                return z3.And(sv.len >= 0, self.X.list(ex, sv.arr, sv.len))
            out.append(('the servers read so far are the first ones', lst))
            ln = lambda ex, r=r: ex.get('cluster_config.servers_', r).len
            out.append(('servers read so far', lambda ex, ln=ln: ln(ex) <= n))
            for nm, v0, f in ints:
                out.append(('%s follows the servers read' % nm, lambda ex, ln=ln, f=f, v0=v0: f(ex) == v0 + ps(ln(ex))))
                out.append(('%s counts the servers to read' % nm, lambda ex, ln=ln, f=f, v0=v0: f(ex) == v0 - ln(ex)))
        return out

    # ---------------------------------------------------------------- contracts of the nested objects
    def contract_for(self, ex, f):
        if self.root == f.qual:
            return None
        return CON.get(f.qual) and CON[f.qual](self)


class SrvSer(Contract):
    """a fresh buffer at position 0 that holds the server"""

    def __init__(self, sp):
        self.sp = sp

    def fields(self, ex, this):
        return ex.get('srv_config.id_', ex.scal(this)), ex.get('srv_config.endpoint_', ex.scal(this))

    def requires(self, ex, this, vals):
        i, e = self.fields(ex, this)
        return [('the endpoint is a non-empty string', z3.And(e > 0, slen(e) > 0, slen(e) < BIG))]

    def havoc(self, ex, this, vals):
        ex.bump_alloc()

    def holds(self, ex, this, c):
        i, e = self.fields(ex, this)
        return srv_at(c, z3.IntVal(0), i, e), 5 + slen(e)

    def ensures(self, ex, old, this, vals, ret):
        H = lambda k: z3.Select(ex.harr('buffer#' + k, I), ret)
        a, s = self.holds(ex, this, H('cid'))
        return [('a new buffer is returned', z3.And(ret >= old.alloc, ret < ex.st.alloc)),
                ('the buffer is as long as the object and at its beginning', z3.And(H('pos') == 0, H('size') == s)),
                ('the buffer holds the object', a)]


class ConfSer(SrvSer):
    def requires(self, ex, this, vals):
        return [('the configuration is the one talked about', self.sp.X.obj(ex, ex.scal(this)))]

    def holds(self, ex, this, c):
        return self.sp.X.at(c, z3.IntVal(0)), self.sp.X.size()


def snap_fields(ex, r):
    return [ex.get('snapshot.' + k, r) for k in ('last_log_idx_', 'last_log_term_', 'size_')]


class SnapSer(SrvSer):
    def requires(self, ex, this, vals):
        r = ex.scal(this)
        c = ex.get('snapshot.last_config_', r)
        return [('the configuration is the one talked about', z3.And(c > 0, c < ex.st.alloc, self.sp.X.obj(ex, c)))] + \
            [('fields are 64-bit values', z3.And(v >= 0, v < 2 ** 64)) for v in snap_fields(ex, r)]

    def holds(self, ex, this, c):
        v = snap_fields(ex, ex.scal(this))
        return z3.And(*([seg(c, 8 * k, 8) == TOK['U'](v[k]) for k in range(3)] + [self.sp.X.at(c, z3.IntVal(24))])), self.sp.X.size() + 24


class De(Contract):
    """reads the object at the position, which moves behind it"""

    def __init__(self, sp):
        self.sp = sp

    def b(self, ex, vals):
        r = ex.scal(vals[0])
        return r, self.sp.bf(ex, 'pos', r), self.sp.bf(ex, 'size', r), self.sp.cid(ex, r)

    def requires(self, ex, this, vals):
        r, p, s, c = self.b(ex, vals)
        a, sz = self.holds(ex, c, p)
        return [('C16', 'the buffer holds the object at its position', a), ('C16', 'the object ends inside the buffer', z3.And(p >= 0, p + sz <= s))]

    def havoc(self, ex, this, vals):
        r = ex.scal(vals[0])
        ex.bump_alloc()
        ex.havoc_field('buffer#pos', U64, r)

    def ensures(self, ex, old, this, vals, ret):
        r = ex.scal(vals[0])
        p0 = z3.Select(old.heap['buffer#pos'], r)
        c = z3.Select(old.heap['buffer#cid'], r)
        a, sz = self.holds(ex, c, p0)
        return [('a new object is returned', z3.And(ret >= old.alloc, ret < ex.st.alloc)),
                ('exactly the bytes of the object are consumed', z3.Select(ex.harr('buffer#pos', I), r) == p0 + sz),
                ('the object equals the serialised one', self.same(ex, ret, old))]


class ConfDe(De):
    def holds(self, ex, c, p):
        return self.sp.X.at(c, p), self.sp.X.size()

    def same(self, ex, ret, old):
        return self.sp.X.obj(ex, ret)


class SrvDe(De):
    """the next server: the one the loop has come to (the position tells)"""

    def k(self, ex):
        return ex.st.ghost['snext']

    def holds(self, ex, c, p):
        k = self.k(ex)
        return srv_at(c, p, xid(k), xep(k)), 5 + slen(xep(k))

    def same(self, ex, ret, old):
        k = self.k(ex)
        return z3.And(z3.Select(ex.harr('srv_config.id_', I), ret) == xid(k), z3.Select(ex.harr('srv_config.endpoint_', I), ret) == xep(k))

    def requires(self, ex, this, vals):
        # the ghost parameter: number of servers read so far, a function of the position
        if self.sp.root == 'cluster_config::deserialize':
            r, p, s, c = self.b(ex, vals)
            k = ex.fresh('k')
            w = z3.Int('w!k')
            ex.assume(ForAll([w], z3.Implies(z3.And(w >= 0, w < self.sp.X.n, p == self.sp.p0 + 20 + ps(w)), k == w), patterns=[ps(w)]))
            ex.gset('snext', k)
        return De.requires(self, ex, this, vals)


class SnapDe(De):
    V = z3.Ints('S!idx S!term S!size')

    def holds(self, ex, c, p):
        return z3.And(*([seg(c, p + 8 * k, 8) == TOK['U'](self.V[k]) for k in range(3)] + [self.sp.X.at(c, p + 24)])), self.sp.X.size() + 24

    def same(self, ex, ret, old):
        c = z3.Select(ex.harr('snapshot.last_config_', I), ret)
        return z3.And(*([a == b for a, b in zip(snap_fields(ex, ret), self.V)] + [c >= old.alloc, c < ex.st.alloc, self.sp.X.obj(ex, c)]))


CON = {'srv_config::serialize': SrvSer, 'cluster_config::serialize': ConfSer, 'snapshot::serialize': SnapSer,
       'srv_config::deserialize': SrvDe, 'cluster_config::deserialize': ConfDe, 'snapshot::deserialize': SnapDe}


def roots(tu, tags=None):
    out = []

    def fn(q, k=0):
        return tu.by_qual[q][k]

    def con_root(q, mk):
        sp = SerSpec(tags)
        sp.root = q
        con = CON[q](sp)

        def setup(ex):
            sp.init(ex)
            ex.gset('snext', ex.fresh('snext'))
            ex.assume(z3.And(ex.st.ghost['snext'] >= 0, ex.st.ghost['snext'] < sp.X.n))
            this, vals = mk(ex, sp)
            for x in con.requires(ex, this, vals):
                ex.assume(x[-1])
            return this, vals, dict(this=this, vals=vals)

        def post(ex, kind, ret, c):
            ex.oblige('C16', '%s does not fail' % q, z3.BoolVal(kind == 'return'), assume=False)
            if kind != 'return':
                return
            for lab, f in con.ensures(ex, c['old'], c['this'], c['vals'], ex.scal(ret)):
                for k, p in enumerate(f.children() if z3.is_and(f) else [f]):
                    ex.oblige('C16', '%s: %s' % (q, lab), p, assume=False)
        out.append(Root(q, sp, tu, setup, post, func=fn(q)))

    def mk_srv(ex, sp):
        r = ex.new_ref()
        i, e = z3.Ints('srv!id srv!ep')
        ex.assume(z3.And(i >= -2 ** 31, i < 2 ** 31, e > 0, slen(e) > 0, slen(e) < BIG))
        ex.put('srv_config.id_', r, i)
        ex.put('srv_config.endpoint_', r, e)
        return r

    def mk_conf(ex, sp):
        r = ex.new_ref()
        ex.havoc_field('cluster_config.servers_', ex.field('cluster_config.servers_'), r)
        for k in ('log_idx_', 'prev_log_idx_'):
            ex.havoc_field('cluster_config.' + k, U64, r)
        a = ex.bump_alloc()
        ex.assume(sp.X.obj(ex, r))
        return r

    def mk_snap(ex, sp):
        c = mk_conf(ex, sp)
        r = ex.new_ref()
        for k, v in zip(('last_log_idx_', 'last_log_term_', 'size_'), SnapDe.V):
            ex.assume(z3.And(v >= 0, v < 2 ** 64))
            ex.put('snapshot.' + k, r, v)
        ex.put('snapshot.last_config_', r, c)
        return r

    def buf(ex, sp):
        b = sp.sym_buffer(ex, 'in')
        sp.p0 = sp.bf(ex, 'pos', b)
        for v in SnapDe.V:
            ex.assume(z3.And(v >= 0, v < 2 ** 64))
        return None, [Obj(b, 'buffer')]

    con_root('srv_config::serialize', lambda ex, sp: (Obj(mk_srv(ex, sp), 'srv_config'), []))
    con_root('cluster_config::serialize', lambda ex, sp: (Obj(mk_conf(ex, sp), 'cluster_config'), []))
    con_root('snapshot::serialize', lambda ex, sp: (Obj(mk_snap(ex, sp), 'snapshot'), []))
    for q in ('srv_config', 'cluster_config', 'snapshot'):
        con_root(q + '::deserialize', buf)

    # round trips over the contracts, and of the two objects with a payload
    def trip(cls, mk, same):
        sp = SerSpec(tags)
        sp.root = cls

        def setup(ex):
            sp.init(ex)
            ex.gset('snext', z3.IntVal(0))
            r, c = mk(ex, sp)
            return Obj(r, cls), [], dict(c, r=r)

        def run(ex, this, vals, c):
            b = ex.scal(ex.call(fn(cls + '::serialize'), this, [], None) if hasattr(ex, 'call') else None)
            c['b'] = b
            ex.oblige('C16', '%s: the serialised buffer is at its beginning' % cls, sp.bf(ex, 'pos', b) == 0)
            if cls == 'log_entry':
                t = ex.inline(fn('log_entry::term_in_buffer'), None, [Obj(b, 'buffer')])
                ex.oblige('C16', 'log_entry: the term read from the buffer is that of the entry', z3.And(
                    ex.scal(t) == c['v'][0], sp.bf(ex, 'pos', b) == 0))
            return ex.call(fn(cls + '::deserialize'), None, [Obj(b, 'buffer')], None)

        def post(ex, kind, ret, c):
            ex.oblige('C16', '%s: the round trip does not fail' % cls, z3.BoolVal(kind == 'return'), assume=False)
            if kind != 'return':
                return
            b = c['b']
            if cls not in ('log_entry', 'snapshot_sync_req'):
                ex.oblige('C16', '%s: exactly the serialised bytes are consumed' % cls, sp.bf(ex, 'pos', b) == sp.bf(ex, 'size', b), assume=False)
            for lab, f in same(ex, sp, ex.scal(ret), c):
                ex.oblige('C16', '%s: %s' % (cls, lab), f, assume=False)
        out.append(Root('%s: round trip' % cls, sp, tu, setup, post, run=run))

    def payload(ex, sp, lab, new, old, pos):
        """buffer `new` holds what `old` (size, pos, contents at the start) held from pos on"""
        o, l = ex.fresh('o'), ex.fresh('l')
        return [(lab + ' has the same size and is at its beginning', z3.And(sp.bf(ex, 'size', new) == old['size'] - pos, sp.bf(ex, 'pos', new) == 0)),
                (lab + ' has the same bytes', z3.Implies(z3.And(o >= 0, l > 0, o + l <= old['size'] - pos),
                                                         seg(sp.cid(ex, new), o, l) == seg(old['cid'], o + pos, l)))]

    def mk_entry(ex, sp):
        d = sp.sym_buffer(ex, 'data')
        r = ex.new_ref()
        t, y = z3.Ints('e!term e!type')
        ex.assume(z3.And(t >= 0, t < 2 ** 64, y >= 0, y < 256))
        ex.put('log_entry.term_', r, t)
        ex.put('log_entry.value_type_', r, y)
        ex.put('log_entry.buff_', r, d)
        return r, dict(v=(t, y), d=dict(size=sp.bf(ex, 'size', d), pos=sp.bf(ex, 'pos', d), cid=sp.cid(ex, d)))

    def same_entry(ex, sp, r, c):
        o = [('term and type are kept', z3.And(ex.get('log_entry.term_', r) == c['v'][0], ex.get('log_entry.value_type_', r) == c['v'][1]))]
        return o + payload(ex, sp, 'the payload', ex.get('log_entry.buff_', r), c['d'], 0)
    trip('log_entry', mk_entry, same_entry)

    def mk_sync(ex, sp):
        s = mk_snap(ex, sp)
        d = sp.sym_buffer(ex, 'data')
        r = ex.new_ref()
        off = z3.Int('q!off')
        done = z3.Bool('q!done')
        ex.assume(z3.And(off >= 0, off < 2 ** 64))
        ex.put('snapshot_sync_req.snapshot_', r, s)
        ex.put('snapshot_sync_req.offset_', r, off)
        ex.put('snapshot_sync_req.data_', r, d)
        ex.put('snapshot_sync_req.done_', r, done)
        return r, dict(v=(off, done), d=dict(size=sp.bf(ex, 'size', d), pos=sp.bf(ex, 'pos', d), cid=sp.cid(ex, d)))

    def same_snap(ex, sp, r, c):
        con = SnapDe(sp)
        old = c['old']
        return [('index, term and size are kept', z3.And(*[a == b for a, b in zip(snap_fields(ex, r), con.V)])),
                ('the configuration is kept', sp.X.obj(ex, ex.get('snapshot.last_config_', r)))]

    def same_sync(ex, sp, r, c):
        o = same_snap(ex, sp, ex.get('snapshot_sync_req.snapshot_', r), c)
        o += [('offset and last-chunk mark are kept', z3.And(ex.get('snapshot_sync_req.offset_', r) == c['v'][0],
                                                            ex.truth(ex.get('snapshot_sync_req.done_', r)) == c['v'][1]))]
        return o + payload(ex, sp, 'the data', ex.get('snapshot_sync_req.data_', r), c['d'], c['d']['pos'])
    trip('snapshot_sync_req', mk_sync, same_sync)
    trip('snapshot', lambda ex, sp: (mk_snap(ex, sp), {}), same_snap)
    trip('cluster_config', lambda ex, sp: (mk_conf(ex, sp), {}), lambda ex, sp, r, c: [('the configuration is kept', sp.X.obj(ex, r))])

    # the lemma about prefix sums, by induction on the later server
    sp = SerSpec(tags)
    sp.root = 'lemma'

    def lsetup(ex):
        return None, [], {}

    def lrun(ex, this, vals, c):
        p, ln = z3.Function('lem!p', I, I), z3.Function('lem!len', I, I)
        i, j = z3.Ints('lem!i lem!j')
        a = z3.Int('a!lem')
        hyp = [p(0) == 0, i >= 0, j > i, p(j) >= 0, p(i) >= 0, ForAll([a], ln(a) >= 1, patterns=[ln(a)]), p(j + 1) == p(j) + 4 + ln(j), p(i + 1) == p(i) + 4 + ln(i)]
        ex.oblige('C16', 'prefix sums: adjacent servers', z3.Implies(z3.And(*hyp), p(i) + 4 + ln(i) <= p(i + 1)), assume=False)
        ex.oblige('C16', 'prefix sums: one more server', z3.Implies(z3.And(*(hyp + [p(i) + 4 + ln(i) <= p(j)])), p(i) + 4 + ln(i) <= p(j + 1)), assume=False)
        ex.oblige('C16', 'prefix sums: not negative', z3.Implies(z3.And(*hyp), p(j + 1) >= 0), assume=False)
        return None
    out.append(Root('prefix sums', sp, tu, lsetup, lambda ex, kind, ret, c: None, run=lrun))
    return out
