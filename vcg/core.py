"""A small deductive verifier for the C++ subset cornerstone is written in.

The program text is clang's AST of the current source.  Execution is symbolic over all inputs:
 * every field of every class is a total map from object references to values (Boogie-style heap),
 * calls to functions that carry a contract are replaced by the contract, other functions are
   inlined, interface calls use the interface contracts of the specification,
 * loops are cut by inductive invariants that are inferred (Houdini) from candidate templates and
   then *checked* by the solver: establishment and preservation are obligations like any other,
 * an obligation is discharged when the solver refutes its negation under the path condition.
Paths are enumerated by re-execution with a decision prefix.
"""
import os, re, time, itertools
import z3
from ctypes_ import T, Types, BOOL, VOID, INT32, U64, U8, OPAQUE, norm
import cast

z3.set_param('smt.random_seed', 1)
I = z3.IntSort()
B = z3.BoolSort()


class Unsupported(Exception):
    pass


class CReturn(Exception):
    def __init__(self, v):
        self.v = v


class CBreak(Exception):
    pass


class CContinue(Exception):
    pass


class CThrow(Exception):
    def __init__(self, what, val=None):
        self.what = what
        self.val = val


class SysExit(Exception):
    """the process ends here (system_exit, ::exit, or an infeasible path)"""


class Infeasible(Exception):
    pass


class Budget(Exception):
    pass


# ---------------------------------------------------------------- values and locations
class Obj:
    __slots__ = ('ref', 'cls')

    def __init__(self, ref, cls):
        self.ref, self.cls = ref, cls

    def __repr__(self):
        return 'Obj(%s,%s)' % (self.ref, self.cls)


class LVar:
    __slots__ = ('key', 't')

    def __init__(self, key, t):
        self.key, self.t = key, t


class LField:
    __slots__ = ('key', 'ref', 't')

    def __init__(self, key, ref, t):
        self.key, self.ref, self.t = key, ref, t


class LElem:
    __slots__ = ('base', 'idx', 't')

    def __init__(self, base, idx, t):
        self.base, self.idx, self.t = base, idx, t


class LMapVal:
    __slots__ = ('base', 'key', 't')

    def __init__(self, base, key, t):
        self.base, self.key, self.t = base, key, t


class LTmp:
    __slots__ = ('v', 't')

    def __init__(self, v, t):
        self.v, self.t = v, t


class LMem:
    """a scalar in raw byte memory"""
    __slots__ = ('addr', 't')

    def __init__(self, addr, t):
        self.addr, self.t = addr, t


LOCS = (LVar, LField, LElem, LMapVal, LTmp, LMem)


class VVec:
    __slots__ = ('len', 'arr', 'et')

    def __init__(self, ln, arr, et):
        self.len, self.arr, self.et = ln, arr, et


class VMap:
    __slots__ = ('dom', 'val', 'size', 'keys', 'pos', 'kt', 'vt')

    def __init__(self, dom, val, size, keys, pos, kt, vt):
        self.dom, self.val, self.size, self.keys, self.pos, self.kt, self.vt = dom, val, size, keys, pos, kt, vt


class VIter:
    __slots__ = ('loc', 'pos')

    def __init__(self, loc, pos):
        self.loc, self.pos = loc, pos


class VPair:
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a, self.b = a, b


class PairRef:
    """an element of a map: first = key, second = mapped location"""
    __slots__ = ('loc', 'key')

    def __init__(self, loc, key):
        self.loc, self.key = loc, key


class VFn:
    __slots__ = ('kind', 'node', 'vars', 'this', 'frame_cls', 'id')

    def __init__(self, kind, node=None, vars=None, this=None, frame_cls=None, id=None):
        self.kind, self.node, self.vars, self.this, self.frame_cls, self.id = kind, node, vars, this, frame_cls, id


class VGuard:
    __slots__ = ('locks', 'key')

    def __init__(self, locks):
        self.locks = locks
        self.key = None


class VOpaque:
    __slots__ = ('t',)

    def __init__(self, t=None):
        self.t = t


class Frame:
    __slots__ = ('vars', 'this', 'func', 'n', 'guards', 'cls')

    def __init__(self, func, this, n, cls=None):
        self.vars, self.this, self.func, self.n, self.cls = {}, this, func, n, cls


class State:
    def __init__(self):
        self.heap = {}
        self.env = {}
        self.ghost = {}
        self.pc = []
        self.locks = []
        self.nf = 0
        self.alloc = z3.Int('alloc0')
        self.taint = set()
        self.trydepth = 0
        self.known = set()
        self.writes = None      # write log while inferring loop effects
        self.events = []
        self.sorts = []

    def copy(self):
        s = State.__new__(State)
        s.heap = dict(self.heap)
        s.env = dict(self.env)
        s.ghost = dict(self.ghost)
        s.pc = list(self.pc)
        s.locks = list(self.locks)
        s.nf = self.nf
        s.alloc = self.alloc
        s.taint = set(self.taint)
        s.trydepth = self.trydepth
        s.known = set(self.known)
        s.writes = self.writes
        s.events = list(self.events)
        s.sorts = list(self.sorts)
        return s


def merge_arr(c, a, b):
    """If(c, a, b) on arrays, as stores over the common base; None when there is none"""
    if a.eq(b):
        return a
    da = db = 0
    x = a
    while z3.is_store(x):
        x, da = x.arg(0), da + 1
    y = b
    while z3.is_store(y):
        y, db = y.arg(0), db + 1
    if not x.eq(y) or da + db > 12:
        return None
    return _marr(c, a, da, b, db)


def _marr(c, a, da, b, db):
    if a.eq(b):
        return a
    if da > 0 and db > 0 and a.arg(1).eq(b.arg(1)):
        m = _marr(c, a.arg(0), da - 1, b.arg(0), db - 1)
        v, w = a.arg(2), b.arg(2)
        return z3.Store(m, a.arg(1), v if v.eq(w) else z3.If(c, v, w))
    if da >= db:
        m = _marr(c, a.arg(0), da - 1, b, db)
        return z3.Store(m, a.arg(1), z3.If(c, a.arg(2), z3.Select(m, a.arg(1))))
    m = _marr(c, a, da, b.arg(0), db - 1)
    return z3.Store(m, b.arg(1), z3.If(c, z3.Select(m, b.arg(1)), b.arg(2)))


def merge_val(c, a, b):
    if a is b:
        return a
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        if a.eq(b):
            return a
        if a.sort() != b.sort():
            return None
        if z3.is_array(a):
            return merge_arr(c, a, b)
        return z3.If(c, a, b)
    if type(a) is not type(b):
        return None
    if isinstance(a, Obj):
        return Obj(merge_val(c, a.ref, b.ref), a.cls) if a.cls == b.cls else None
    if isinstance(a, LField):
        return a if a.key == b.key and a.ref.eq(b.ref) else None
    if isinstance(a, VVec):
        arr = merge_arr(c, a.arr, b.arr)
        return None if arr is None else VVec(merge_val(c, a.len, b.len), arr, a.et)
    if isinstance(a, VMap):
        xs = []
        for n in ('dom', 'val', 'size', 'keys', 'pos'):
            u, w = getattr(a, n), getattr(b, n)
            m = u if u is w else merge_val(c, u, w)
            if m is None and u is not None:
                return None
            xs.append(m)
        return VMap(*xs, a.kt, a.vt)
    if isinstance(a, VIter):
        if a.loc is b.loc or (isinstance(a.loc, LField) and isinstance(b.loc, LField) and a.loc.key == b.loc.key and a.loc.ref.eq(b.loc.ref)):
            return VIter(a.loc, merge_val(c, a.pos, b.pos))
    return None


def fresh_merge(st, c, a, b):
    st.nf += 1
    m = z3.Const('M!%d' % st.nf, a.sort())
    st.pc.append(z3.Or(z3.Not(c), m == a))
    st.pc.append(z3.Or(c, m == b))
    return m


def merge_outcomes(s0, outs):
    """outs: [(state, value)] of the paths through a piece of code, in no particular order; one (state, value) or None"""
    outs = list(outs)
    while len(outs) > 1:
        best = None
        for i in range(len(outs)):
            for j in range(i + 1, len(outs)):
                a, b = outs[i][0].pc, outs[j][0].pc
                n = len(s0.pc)
                while n < len(a) and n < len(b) and a[n].eq(b[n]):
                    n += 1
                if best is None or n > best[0]:
                    best = (n, i, j)
        n, i, j = best
        (s1, v1), (s2, v2) = outs[i], outs[j]
        if n >= len(s1.pc) or n >= len(s2.pc):
            return None
        c, d = s1.pc[n], s2.pc[n]
        if not (d.eq(z3.Not(c)) or c.eq(z3.Not(d))):
            return None
        base = s0.copy()
        base.pc = list(s1.pc[:n])
        m = merge_states(c, base, s1, s2)
        if m is None:
            return None
        v = v1
        if not (v1 is None and v2 is None):
            v = merge_val(c, v1, v2)
            if v is None:
                return None
        outs = [x for k, x in enumerate(outs) if k not in (i, j)] + [(m, v)]
    return outs[0]


def merge_states(c, s0, s1, s2):
    """the state after an if whose branches ended in s1 (c) and s2 (not c); None when it cannot be expressed"""
    if s1.trydepth != s2.trydepth or len(s1.locks) != len(s2.locks) or any(x is not y for x, y in zip(s1.locks, s2.locks)):
        return None
    if len(s1.sorts) != len(s2.sorts) or len(s1.sorts) != len(s0.sorts):
        return None
    st = s0.copy()
    n0 = len(s0.pc)
    st.nf = max(s1.nf, s2.nf)
    st.alloc = s1.alloc if s1.alloc.eq(s2.alloc) else z3.If(c, s1.alloc, s2.alloc)
    for f in s1.pc[n0 + 1:]:
        st.pc.append(z3.Or(z3.Not(c), f))
    for f in s2.pc[n0 + 1:]:
        st.pc.append(z3.Or(c, f))
    for k in set(s1.heap) | set(s2.heap):
        a, b = s1.heap.get(k), s2.heap.get(k)
        if a is None or b is None:
            x = a if a is not None else b
            h0 = z3.Const('H0!' + k, x.sort())
            a, b = (h0 if a is None else a), (h0 if b is None else b)
        m = merge_arr(c, a, b)
        if m is None:
            m = fresh_merge(st, c, a, b)
        st.heap[k] = m
    for k in s0.env:
        m = merge_val(c, s1.env.get(k), s2.env.get(k))
        if m is None and not (s1.env.get(k) is None and s2.env.get(k) is None):
            return None
        st.env[k] = m
    for k in set(s1.ghost) | set(s2.ghost):
        a, b = s1.ghost.get(k), s2.ghost.get(k)
        m = merge_val(c, a, b)
        if m is None and isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.sort() == b.sort() and z3.is_array(a):
            m = fresh_merge(st, c, a, b)
        if m is None and not (a is None and b is None):
            return None
        st.ghost[k] = m
    st.taint = s1.taint | s2.taint
    st.events = list(s1.events)
    return st


def is_true(e):
    return z3.is_true(e)


def is_false(e):
    return z3.is_false(e)


def simp(e):
    return z3.simplify(e)


_badpat = (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_EQ, z3.Z3_OP_LE,
           z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_DISTINCT)


def pat_ok(e):
    st = [e]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return False
        if z3.is_app(x) and x.decl().kind() in _badpat:
            return False
        st.extend(x.children())
    return True


_forall = z3.ForAll


def ForAll(vs, body, patterns=None):
    """a quantifier whose patterns are dropped where the solver would not accept them"""
    ps = []
    for p in patterns or []:
        if isinstance(p, tuple):
            if all(pat_ok(q) for q in p):
                ps.append(z3.MultiPattern(*p))
        elif pat_ok(p):
            ps.append(p)
    try:
        return _forall(vs, body, patterns=ps) if ps else _forall(vs, body)
    except z3.Z3Exception:
        return _forall(vs, body)


def const_int(e):
    if z3.is_int_value(e):
        return e.as_long()
    e = z3.simplify(e)
    return e.as_long() if z3.is_int_value(e) else None


class Result:
    """one obligation, aggregated over paths"""

    def __init__(self, func, tag, label):
        self.func, self.tag, self.label = func, tag, label
        self.n = 0
        self.ok = 0
        self.refuted = 0
        self.unknown = 0
        self.detail = None
        self.loc = None

    def status(self):
        if self.refuted:
            return 'refuted'
        if self.unknown:
            return 'unknown'
        return 'proved'


class Run:
    _id = 0

    def __init__(self, ex, st, decisions):
        Run._id += 1
        self.id = Run._id
        self.dec = list(decisions)
        self.taken = []
        self.pending = []     # alternative prefixes discovered
        self.ops = 0
        self.cache = None     # shared among runs of one exploration
        self.solver = None
        self.npc = 0


MAXPATHS = 4000
SLOW = float(os.environ.get('VCG_SLOW', '0'))


def limit(s, ms):
    """resource limit (deterministic under load), with a generous limit of time on top"""
    s.set('rlimit', int(ms * 2200))
    s.set('timeout', int(ms * 6))


class Ex:
    def __init__(self, tu, spec, name, deadline=None, tmo=4000):
        self.tu = tu
        self.spec = spec
        self.types = Types(tu)
        self.name = name
        self.results = {}
        self.record = True
        self.run = None
        self.st = None
        self.frames = []
        self.deadline = deadline
        self.tmo = tmo
        self.solver_time = 0.0
        self.nchecks = 0
        self.inlined = set()
        self.used_contracts = set()
        self.used_models = set()
        self.unsupported = []
        self.nomerge = set()
        self.loops = []
        self.npaths = 0
        self.cur = None        # AST node being executed (for locations)
        self.depth = 0
        self.backends = {}
        self.models = []

    # ------------------------------------------------------------ fresh symbols, assumptions
    def fresh(self, name, sort=I):
        self.st.nf += 1
        return z3.Const('%s!%d' % (name, self.st.nf), sort)

    def assume(self, f):
        if f is True:
            return
        if f is False:
            raise Infeasible()
        if is_true(f):
            return
        if is_false(f):
            raise Infeasible()
        self.st.pc.append(f)

    def assume_once(self, f):
        k = f.get_id()
        if k in self.st.known:
            return
        self.st.known.add(k)
        self._keep(f)
        self.st.pc.append(f)

    _kept = []

    def _keep(self, f):
        Ex._kept.append(f)    # keep asts alive so that ids stay unique

    def new_solver(self):
        # E-matching only: finds contradictions fast and gives up fast; models come from prove()
        s = z3.SimpleSolver()
        s.set('auto_config', False)
        s.set('smt.mbqi', False)
        limit(s, 600)
        return s

    def solver(self):
        r = self.run
        if r.solver is None:
            r.solver = self.new_solver()
            r.npc = 0
        pc = self.st.pc
        if r.npc > len(pc):
            r.solver = self.new_solver()
            r.npc = 0
        while r.npc < len(pc):
            r.solver.add(pc[r.npc])
            r.npc += 1
        return r.solver

    def check(self, f, timeout=200, fresh=True):
        """is pc /\\ f satisfiable"""
        if self.deadline and time.time() > self.deadline:
            raise Budget('time')
        t = time.time()
        s = self.solver()
        limit(s, min(timeout, 100))
        s.push()
        why = ''
        try:
            s.add(f)
            r = s.check()
            if r == z3.unknown:
                why = s.reason_unknown()
        finally:
            s.pop()
        if fresh and r == z3.unknown and 'incomplete' not in why:
            # a fresh solver simplifies first
            z = self.new_solver()
            limit(z, timeout)
            z.add(*self.st.pc)
            z.add(f)
            r = z.check()
        self.solver_time += time.time() - t
        self.nchecks += 1
        if SLOW and time.time() - t > SLOW:
            import traceback
            fr = [f.name for f in traceback.extract_stack()[-7:-1]]
            if os.environ.get('VCG_DUMP') and not os.path.exists(os.environ['VCG_DUMP']):
                z = self.new_solver()
                z.add(*self.st.pc)
                z.add(f)
                open(os.environ['VCG_DUMP'], 'w').write(z.to_smt2())
            print('SLOW %.1f %s %s npc=%d %s %s' % (time.time() - t, r, self.where(), len(self.st.pc), '<'.join(fr), str(f)[:160].replace('\n', ' ')))
        return r

    def implied(self, f, timeout=200):
        f = simp(f)
        if is_true(f):
            return True
        if is_false(f):
            return False
        r = self.run
        r.ops += 1
        key = (tuple(r.taken), r.ops)
        if r.cache is not None and key in r.cache:
            return r.cache[key]
        v = self.check(z3.Not(f), timeout, fresh=False) == z3.unsat
        if r.cache is not None:
            r.cache[key] = v
        return v

    # ------------------------------------------------------------ path enumeration
    def branch(self, cond):
        if cond is True or cond is False:
            return cond
        c = simp(cond)
        if is_true(c):
            return True
        if is_false(c):
            return False
        r = self.run
        i = len(r.taken)
        if i < len(r.dec):
            d = r.dec[i]
            r.taken.append(d)
            self.assume(c if d == 0 else z3.Not(c))
            return d == 0
        a = self.check(c)
        if a == z3.unsat:
            r.taken.append(1)
            self.st.pc.append(z3.Not(c))
            return False
        b = self.check(z3.Not(c))
        if b == z3.unsat:
            r.taken.append(0)
            self.st.pc.append(c)
            return True
        r.pending.append(r.taken + [1])
        r.taken.append(0)
        self.st.pc.append(c)
        return True

    def choose(self, n, conds=None):
        """non-deterministic choice among n alternatives"""
        r = self.run
        i = len(r.taken)
        if i < len(r.dec):
            d = r.dec[i]
            r.taken.append(d)
            return d
        for k in range(n - 1, 0, -1):
            r.pending.append(r.taken + [k])
        r.taken.append(0)
        return 0

    def explore(self, st0, fn, cache, maxpaths=MAXPATHS):
        """run fn on a copy of st0 along every feasible path; yields (decisions, outcome, value, state)"""
        saved = (self.run, self.st, self.frames, self.depth)
        work = [[]]
        out = []
        n = 0
        try:
            while work:
                dec = work.pop()
                n += 1
                if n > maxpaths:
                    raise Budget('paths')
                if self.deadline and time.time() > self.deadline:
                    raise Budget('time')
                self.run = Run(self, None, dec)
                self.run.cache = cache
                self.st = st0.copy()
                self.frames = list(saved[2])
                self.depth = saved[3]
                try:
                    kind, val = fn()
                except Infeasible:
                    kind, val = 'dead', None
                except SysExit:
                    kind, val = 'sysexit', None
                work.extend(self.run.pending)
                if kind != 'dead':
                    out.append((list(self.run.taken), kind, val, self.st, self.run, self.frames))
        finally:
            self.run, self.st, self.frames, self.depth = saved
        return out

    # ------------------------------------------------------------ obligations
    def where(self):
        n = self.cur
        f = self.frames[-1].func if self.frames else None
        line = None
        if n is not None:
            b = n.get('range', {}).get('begin', {})
            line = b.get('line') or b.get('expansionLoc', {}).get('line') or n.get('_line')
        return '%s%s' % (f.qual if f is not None else '?', ':%s' % line if line else '')

    def oblige(self, tag, label, f, assume=True):
        """an obligation: pc => f"""
        if f is True:
            f = z3.BoolVal(True)
        elif f is False:
            f = z3.BoolVal(False)
        # while a path repeats the decisions of an earlier one its obligations were checked there
        if self.record and self.spec.wants(tag) and len(self.run.taken) >= len(self.run.dec):
            key = (self.name, tag, label)
            res = self.results.get(key)
            if res is None:
                res = self.results[key] = Result(*key)
            res.n += 1
            if res.refuted >= 3 and 'tainted' not in str(res.detail.get('note')):
                st, detail = 'refuted', None          # already decided: do not spend more solver time
            else:
                st, detail = self.prove(f)
            if st == 'proved':
                res.ok += 1
            elif st == 'refuted':
                res.refuted += 1
                if detail is not None and (res.detail is None or 'tainted' in str(res.detail.get('note'))):
                    res.detail = detail
                    res.loc = self.where()
            else:
                res.unknown += 1
                if res.detail is None:
                    res.detail = detail
                    res.loc = self.where()
        if assume:
            g = simp(f)
            if is_false(g):
                raise Infeasible()
            if not is_true(g):
                self.st.pc.append(f)

    def count_aux(self, label):
        key = (self.name, 'aux', label)
        res = self.results.get(key)
        if res is None:
            res = self.results[key] = Result(*key)
        res.n += 1
        res.ok += 1

    def prove(self, f):
        g = simp(f)
        if is_true(g):
            self.backends['simplifier'] = self.backends.get('simplifier', 0) + 1
            return 'proved', None
        t = time.time()
        neg = z3.Not(f)
        r = self.check(neg, self.tmo)
        if r == z3.unsat:
            self.backends['z3'] = self.backends.get('z3', 0) + 1
            return 'proved', None
        # a fresh solver often does better than the incremental one
        best = None
        for seed in (3, 11):
            s = self.new_solver()
            limit(s, self.tmo)
            s.set('random_seed', seed)
            s.add(*self.st.pc)
            s.add(neg)
            t0 = time.time()
            r2 = s.check()
            self.solver_time += time.time() - t0
            self.nchecks += 1
            if r2 == z3.unsat:
                self.backends['z3'] = self.backends.get('z3', 0) + 1
                return 'proved', None
            if 'incomplete' in s.reason_unknown():
                break
        for seed in (1, 7):
            s = z3.Solver()
            s.set('timeout', self.tmo * (1 if seed == 1 else 2))
            s.set('random_seed', seed)
            s.add(*self.st.pc)
            s.add(neg)
            t0 = time.time()
            r2 = s.check()
            self.solver_time += time.time() - t0
            self.nchecks += 1
            if r2 == z3.unsat:
                self.backends['z3'] = self.backends.get('z3', 0) + 1
                return 'proved', None
            if r2 == z3.sat:
                best = s
                break
        if best is None:
            r3 = self.cvc5_check(neg)
            if r3 == 'unsat':
                self.backends['cvc5'] = self.backends.get('cvc5', 0) + 1
                return 'proved', None
            if os.environ.get('VCG_UNK'):
                z = self.new_solver()
                z.add(*self.st.pc)
                z.add(neg)
                Ex.ndump = getattr(Ex, 'ndump', 0) + 1
                open('%s%d.smt2' % (os.environ['VCG_UNK'], Ex.ndump), 'w').write(z.to_smt2())
            return 'unknown', dict(note='solver gave up', goal=str(f)[:600])
        m = best.model()
        detail = dict(goal=str(f)[:600], model=self.spec.describe_model(self, m), note='',
                      path=[str(x) for x in self.st.events[-20:]])
        if self.st.taint:
            detail['note'] = 'tainted: ' + ', '.join(sorted(self.st.taint))
            return 'unknown', detail
        return 'refuted', detail

    def cvc5_check(self, neg):
        try:
            import subprocess, tempfile
            s = z3.Solver()
            s.add(*self.st.pc)
            s.add(neg)
            txt = '(set-logic ALL)\n' + s.to_smt2()
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                f.write(txt)
            try:
                t0 = time.time()
                r = subprocess.run(['cvc5', '--tlimit=%d' % (self.tmo * 2), f.name], stdout=subprocess.PIPE,
                                   stderr=subprocess.DEVNULL, timeout=self.tmo / 400 + 5)
                self.solver_time += time.time() - t0
                return r.stdout.decode().strip().split('\n')[0]
            finally:
                os.unlink(f.name)
        except Exception:
            return 'error'

    def taint(self, why):
        self.st.taint.add(why)

    # ------------------------------------------------------------ types -> components
    def comps(self, t):
        k = t.k
        if k == 'bool':
            return [('', B)]
        if k in ('int', 'ptr', 'time', 'str', 'fn', 'cls', 'lref', 'opaque', 'mutex', 'cv', 'iter', 'guard', 'void', 'arr', 'pair'):
            return [('', I)]
        if k == 'vec':
            es = B if t.a.k == 'bool' else I
            return [('.len', I), ('.arr', z3.ArraySort(I, es))]
        if k == 'map':
            es = B if t.b.k == 'bool' else I
            return [('.dom', z3.ArraySort(I, B)), ('.val', z3.ArraySort(I, es)), ('.size', I),
                    ('.keys', z3.ArraySort(I, I)), ('.pos', z3.ArraySort(I, I))]
        if k == 'set':
            return [('.dom', z3.ArraySort(I, B)), ('.size', I), ('.keys', z3.ArraySort(I, I)), ('.pos', z3.ArraySort(I, I))]
        raise Unsupported('type %s' % t)

    def pack(self, t, cs):
        if t.k == 'vec':
            return VVec(cs[0], cs[1], t.a)
        if t.k == 'map':
            return VMap(cs[0], cs[1], cs[2], cs[3], cs[4], t.a, t.b)
        if t.k == 'set':
            return VMap(cs[0], None, cs[1], cs[2], cs[3], t.a, None)
        return cs[0]

    def unpack(self, t, v):
        if t.k == 'vec':
            return [v.len, v.arr]
        if t.k == 'map':
            return [v.dom, v.val, v.size, v.keys, v.pos]
        if t.k == 'set':
            return [v.dom, v.size, v.keys, v.pos]
        if isinstance(v, Obj):
            return [v.ref]
        if isinstance(v, VFn):
            return [v.id if v.id is not None else self.fresh('fn')]
        if isinstance(v, (VOpaque, VIter, VPair, PairRef, VGuard)) or isinstance(v, LOCS):
            return [self.fresh('opq')]
        if t.k == 'bool' and v.sort() != B:
            return [v != 0]
        if t.k != 'bool' and v.sort() == B:
            return [z3.If(v, z3.IntVal(1), z3.IntVal(0))]
        return [v]

    def harr(self, key, sort):
        a = self.st.heap.get(key)
        if a is None:
            a = z3.Const('H0!' + key, z3.ArraySort(I, sort))
            self.st.heap[key] = a
        return a

    # value well-formedness (holds by construction of the C++ types)
    def wf(self, t, v):
        if t.k == 'int':
            self.assume_range(v, t)
        elif t.k in ('ptr', 'cls', 'lref'):
            if not z3.is_int_value(v):
                self.assume_once(z3.And(v >= 0, v < self.st.alloc))
        elif t.k == 'vec':
            self.assume_once(z3.And(v.len >= 0, v.len < 2 ** 62))
            if t.a.k in ('ptr', 'cls'):
                j = z3.Int('j!wf')
                self.assume_once(ForAll([j], z3.And(z3.Select(v.arr, j) >= 0, z3.Select(v.arr, j) < self.st.alloc),
                                           patterns=[z3.Select(v.arr, j)]))
        elif t.k in ('map', 'set'):
            self.map_axioms(v)

    def assume_range(self, v, t):
        if z3.is_int_value(v):
            return
        if t.b:
            self.assume_once(z3.And(v >= -2 ** (t.a - 1), v < 2 ** (t.a - 1)))
        else:
            self.assume_once(z3.And(v >= 0, v < 2 ** t.a))

    def map_axioms(self, m):
        k, i = z3.Ints('k!m i!m')
        self.assume_once(z3.And(m.size >= 0, m.size < 2 ** 31))
        self.assume_once(ForAll([k], z3.Implies(z3.Select(m.dom, k), z3.And(
            z3.Select(m.pos, k) >= 0, z3.Select(m.pos, k) < m.size, z3.Select(m.keys, z3.Select(m.pos, k)) == k)),
            patterns=[z3.Select(m.dom, k)]))
        self.assume_once(ForAll([i], z3.Implies(z3.And(i >= 0, i < m.size), z3.And(
            z3.Select(m.dom, z3.Select(m.keys, i)), z3.Select(m.pos, z3.Select(m.keys, i)) == i)),
            patterns=[z3.Select(m.keys, i)]))
        if m.val is not None and m.vt is not None and m.vt.k == 'ptr':
            self.assume_once(ForAll([k], z3.And(z3.Select(m.val, k) >= 0, z3.Select(m.val, k) < self.st.alloc),
                                       patterns=[z3.Select(m.val, k)]))

    # ------------------------------------------------------------ load / store
    def load(self, l):
        if isinstance(l, LTmp):
            return l.v
        if isinstance(l, LVar):
            v = self.st.env.get(l.key)
            if v is None:
                raise Unsupported('uninitialised variable read')
            return v
        if isinstance(l, LField):
            hook = self.spec.on_read(self, l)
            if l.t.k == 'cls':
                a = self.harr(l.key, I)
                v = z3.Select(a, l.ref)
                self.assume_once(z3.And(v > 0, v < self.st.alloc))
                return Obj(v, l.t.name)
            cs = []
            for suf, sort in self.comps(l.t):
                cs.append(z3.Select(self.harr(l.key + suf, sort), l.ref))
            cs = [self.rsel(c) for c in cs]
            v = self.pack(l.t, cs)
            self.wf(l.t, v)
            return v
        if isinstance(l, LElem):
            b = self.load(l.base)
            v = z3.Select(b.arr, l.idx)
            v = self.rsel(v)
            self.wf(l.t, v)
            if l.t.k == 'cls':
                return Obj(v, l.t.name)
            return v
        if isinstance(l, LMapVal):
            b = self.load(l.base)
            v = self.rsel(z3.Select(b.val, l.key))
            self.wf(l.t, v)
            return v
        if isinstance(l, LMem):
            return self.spec.mem_load(self, l.addr, l.t)
        return l

    def rsel(self, e):
        """cheap read-over-write simplification on syntactically equal indexes"""
        while z3.is_select(e):
            a, i = e.arg(0), e.arg(1)
            if z3.is_store(a):
                if a.arg(1).eq(i):
                    e = a.arg(2)
                    continue
                x, y = a.arg(1), i
                if z3.is_int_value(x) and z3.is_int_value(y):
                    e = z3.Select(a.arg(0), i)
                    continue
            break
        return e

    def store(self, l, v):
        if isinstance(v, LOCS):
            v = self.load(v)
        if isinstance(l, LVar):
            if self.st.writes is not None:
                self.st.writes.append(('env', l.key, None))
            if isinstance(v, z3.ExprRef):
                if l.t.k == 'bool' and v.sort() != B:
                    v = v != 0
                elif l.t.k == 'int' and v.sort() == B:
                    v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
            self.st.env[l.key] = v
            return
        if isinstance(l, LField):
            self.spec.on_write(self, l, v)
            vs = self.unpack(l.t, v)
            if self.st.writes is not None:
                self.st.writes.append(('heap', l.key, l.ref, l.t))
            for (suf, sort), x in zip(self.comps(l.t), vs):
                a = self.harr(l.key + suf, sort)
                while z3.is_store(a) and a.arg(1).eq(l.ref):
                    a = a.arg(0)
                self.st.heap[l.key + suf] = z3.Store(a, l.ref, x)
            return
        if isinstance(l, LElem):
            b = self.load(l.base)
            x = self.unpack(l.t, v)[0]
            self.store(l.base, VVec(b.len, z3.Store(b.arr, l.idx, x), b.et))
            return
        if isinstance(l, LMapVal):
            b = self.load(l.base)
            x = self.unpack(l.t, v)[0]
            self.store(l.base, VMap(b.dom, z3.Store(b.val, l.key, x), b.size, b.keys, b.pos, b.kt, b.vt))
            return
        if isinstance(l, LMem):
            self.spec.mem_store(self, l.addr, l.t, v)
            return
        if isinstance(l, LTmp):
            l.v = v
            return
        raise Unsupported('store to %r' % (l,))

    def rv(self, x):
        if isinstance(x, LOCS):
            return self.load(x)
        return x

    def scal(self, x):
        """scalar z3 term of a value"""
        x = self.rv(x)
        if isinstance(x, Obj):
            return x.ref
        if not isinstance(x, z3.ExprRef):
            raise Unsupported('scalar expected, got %r' % (x,))
        return x

    def truth(self, x):
        x = self.rv(x)
        if isinstance(x, VFn):
            return z3.BoolVal(True) if x.kind != 'nil' else z3.BoolVal(False)
        if isinstance(x, Obj):
            return x.ref != 0
        if isinstance(x, bool):
            return z3.BoolVal(x)
        if not isinstance(x, z3.ExprRef):
            raise Unsupported('condition %r' % (x,))
        if x.sort() == B:
            return x
        return x != 0

    # ------------------------------------------------------------ defaults and fresh values
    def default(self, t):
        k = t.k
        if k == 'bool':
            return z3.BoolVal(False)
        if k in ('int', 'ptr', 'time'):
            return z3.IntVal(0)
        if k == 'vec':
            return VVec(z3.IntVal(0), z3.K(I, z3.BoolVal(False) if t.a.k == 'bool' else z3.IntVal(0)), t.a)
        if k in ('map', 'set'):
            vt = t.b if k == 'map' else None
            m = VMap(z3.K(I, z3.BoolVal(False)), z3.K(I, z3.IntVal(0)) if k == 'map' else None, z3.IntVal(0),
                     z3.K(I, z3.IntVal(0)), z3.K(I, z3.IntVal(0)), t.a, vt)
            return m
        if k == 'str':
            return self.spec.empty_str(self)
        if k == 'fn':
            return VFn('nil', id=z3.IntVal(0))
        if k == 'cls':
            return self.construct(t.name, [])
        if k == 'arr':
            return VOpaque(t)
        return VOpaque(t)

    def fresh_val(self, t, name='v'):
        k = t.k
        if k == 'lref':
            return self.fresh_val(t.a, name)
        if k == 'void':
            return None
        if k == 'cls':
            r = self.fresh(name)
            self.assume(z3.And(r > 0, r < self.st.alloc))
            return Obj(r, t.name)
        if k in ('opaque', 'iter', 'guard', 'pair', 'arr', 'cv', 'mutex'):
            return VOpaque(t)
        if k == 'fn':
            return VFn('opaque', id=self.fresh(name))
        cs = [self.fresh(name + s, so) for s, so in self.comps(t)]
        v = self.pack(t, cs)
        self.wf(t, v)
        return v

    def new_ref(self):
        r = self.st.alloc
        if not (z3.is_int_value(r) or z3.is_const(r)):
            r = self.fresh('ref')
            self.st.pc.append(r == self.st.alloc)
        self.st.alloc = simp(r + 1)
        if self.st.writes is not None:
            self.st.writes.append(('alloc', None, None))
        return r

    def bump_alloc(self):
        a = self.fresh('alloc')
        self.st.pc.append(a >= self.st.alloc)
        self.st.alloc = a
        if self.st.writes is not None:
            self.st.writes.append(('alloc', None, None))

    # fields, spec side
    def field(self, qual):
        cls, f = qual.rsplit('.', 1)
        rec = self.tu.records.get(cls)
        if rec is None:
            raise Unsupported('no class ' + cls)
        for n, t, _, _ in rec.fields:
            if n == f:
                return self.types.of(t)
        raise Unsupported('no field ' + qual)

    def get(self, qual, ref):
        """read a field (specification side)"""
        return self.load(LField(qual, ref, self.field(qual)))

    def put(self, qual, ref, v):
        self.store(LField(qual, ref, self.field(qual)), v)

    def havoc_loc(self, l):
        if isinstance(l, LVar):
            self.store(l, self.fresh_val(l.t, 'hv'))
        elif isinstance(l, LField):
            self.havoc_field(l.key, l.t, l.ref)
        elif isinstance(l, (LElem, LMapVal)):
            self.store(l, self.fresh_val(l.t, 'hv'))

    def havoc_field(self, key, t, ref=None):
        """ref None: for all objects"""
        if self.st.writes is not None:
            self.st.writes.append(('heap', key, ref, t))
        for suf, sort in self.comps(t):
            if ref is None:
                self.st.heap[key + suf] = self.fresh('H!' + key + suf, z3.ArraySort(I, sort))
                if t.k == 'ptr':
                    self.ptr_wf(self.st.heap[key + suf])
            else:
                a = self.harr(key + suf, sort)
                self.st.heap[key + suf] = z3.Store(a, ref, self.fresh('hv!' + key + suf, sort))

    def ptr_wf(self, a):
        """every pointer stored in an object points to an allocated object (or is null)"""
        r = z3.Int('r!pw')
        self.assume_once(ForAll([r], z3.And(z3.Select(a, r) >= 0, z3.Select(a, r) < self.st.alloc), patterns=[z3.Select(a, r)]))

    def gget(self, name):
        return self.st.ghost[name]

    def gset(self, name, v):
        if self.st.writes is not None:
            self.st.writes.append(('ghost', name, None))
        self.st.ghost[name] = v
