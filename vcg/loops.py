"""Loops are cut by an inductive invariant.

The frame (what the body can write) is computed to a fixpoint by executing the body; the invariant is
the largest inductive subset of candidate formulas (Houdini).  Establishment and preservation of every
kept conjunct is checked by the solver on this very source; nothing is assumed that was not checked.
"""
import os, pickle, re, time
import z3
from core import *
import core
from ctypes_ import T


def consts(e, memo={}):
    out = set()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        st.extend(x.children())
    return out


def newer(names, nf):
    """does any symbol stem from after the loop was entered"""
    for n in names:
        p = n.rsplit('!', 1)
        if len(p) == 2 and p[1].isdigit() and int(p[1]) > nf and not n.startswith('H0!'):
            return True
    return False


class Info:
    pass


def same_loc(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, LVar):
        return a.key == b.key
    if isinstance(a, LField):
        return a.key == b.key and a.ref.eq(b.ref)
    if isinstance(a, (LElem,)):
        return same_loc(a.base, b.base) and a.idx.eq(b.idx)
    if isinstance(a, LTmp):
        return a is b or (hasattr(a.v, 'arr') and hasattr(b.v, 'arr') and a.v.arr.eq(b.v.arr))
    return a is b


def havoc(ex, st, mod, s0):
    """replace everything in mod by fresh symbols in ex.st (== st)"""
    nf0 = s0.nf
    if mod['alloc']:
        a = ex.fresh('alloc')
        st.pc.append(a >= s0.alloc)
        st.alloc = a
    for key in mod['env']:
        v = s0.env.get(key)
        if v is None:
            continue
        if isinstance(v, VIter):
            p = ex.fresh('it')
            st.env[key] = VIter(v.loc, p)
        elif isinstance(v, VVec):
            t = T('vec', v.et)
            st.env[key] = ex.fresh_val(t, 'hv')
        elif isinstance(v, VMap):
            t = T('map', v.kt, v.vt) if v.val is not None else T('set', v.kt)
            st.env[key] = ex.fresh_val(t, 'hv')
        elif isinstance(v, z3.ExprRef):
            t = mod['envt'].get(key)
            if t is not None and t.k in ('int', 'bool', 'ptr', 'str', 'time'):
                st.env[key] = ex.fresh_val(t, 'hv')
            else:
                st.env[key] = ex.fresh('hv', v.sort())
        elif isinstance(v, (VFn, VOpaque, VGuard, Obj)):
            if isinstance(v, VFn):
                st.env[key] = VFn('opaque', id=ex.fresh('fn'))
        else:
            raise Unsupported('loop variable %r' % (v,))
    for key, (t, refs) in mod['heap'].items():
        for suf, sort in ex.comps(t):
            if refs is None:
                st.heap[key + suf] = ex.fresh('H!' + key + suf, z3.ArraySort(I, sort))
                if t.k == 'ptr':
                    ex.ptr_wf(st.heap[key + suf])
            else:
                a = ex.harr(key + suf, sort)
                for r in refs:
                    a = z3.Store(a, r, ex.fresh('hv!' + key + suf, sort))
                st.heap[key + suf] = a
    for g in mod['ghost']:
        v = s0.ghost[g]
        if isinstance(v, z3.ExprRef):
            st.ghost[g] = ex.fresh('g!' + g, v.sort())
        else:
            raise Unsupported('ghost ' + g)
    for g in mod['ghost']:
        ex.spec.ghost_wf(ex, g) if hasattr(ex.spec, 'ghost_wf') else None


def merge(ex, mod, writes, s0):
    ch = False
    for w in writes:
        if w[0] == 'env':
            if w[1] in s0.env and w[1] not in mod['env']:
                mod['env'].add(w[1])
                ch = True
        elif w[0] == 'heap':
            _, key, ref, t = w
            cur = mod['heap'].get(key)
            if cur is not None and cur[1] is None:
                continue
            whole = ref is None or newer(consts(ref), s0.nf)
            if whole:
                mod['heap'][key] = (t, None)
                ch = True
            else:
                if cur is None:
                    mod['heap'][key] = (t, [ref])
                    ch = True
                elif not any(ref.eq(r) for r in cur[1]):
                    if len(cur[1]) >= 4:
                        mod['heap'][key] = (t, None)
                    else:
                        cur[1].append(ref)
                    ch = True
        elif w[0] == 'alloc':
            if not mod['alloc']:
                mod['alloc'] = True
                ch = True
        elif w[0] == 'ghost':
            if w[1] not in mod['ghost'] and w[1] in s0.ghost:
                mod['ghost'].add(w[1])
                ch = True
    return ch


def env_types(ex):
    out = {}
    for fr in ex.frames:
        for v in fr.vars.values():
            if isinstance(v, LVar):
                out[v.key] = v.t
    return out


LOOPS = ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt')


def loop_key(ex, n):
    """function and ordinal of the loop in it: stable under edits elsewhere"""
    fr = ex.frames[-1]
    f = getattr(fr, 'func', None)
    body = f.body if f is not None and getattr(f, 'body', None) else None
    idx = -1
    if body is not None:
        cache = ex.__dict__.setdefault('loop_index', {})
        if id(body) not in cache:
            d = {}

            def walk(e):
                if not isinstance(e, dict):
                    return
                if e.get('kind') in LOOPS:
                    d[e.get('id')] = len(d)
                for c in e.get('inner', []):
                    walk(c)
            walk(body)
            cache[id(body)] = d
        idx = cache[id(body)].get(n.get('id'), -1)
    return '%s#%d' % (re.sub(r':\d+$', '', ex.where()), idx)


def decl_names(ex):
    d = ex.tu.__dict__.setdefault('_local_names', {})
    seen = ex.tu.__dict__.setdefault('_local_seen', set())
    for fr in ex.frames:
        f = fr.func
        if f is None or id(f) in seen:
            continue
        seen.add(id(f))

        def walk(e):
            if not isinstance(e, dict):
                return
            if e.get('kind') in ('VarDecl', 'ParmVarDecl') and e.get('name'):
                d[e.get('id')] = e['name']
            for c in e.get('inner', []):
                walk(c)
        walk(f.node)
    return d


def norm_name(ex, nm):
    """the name of a candidate with declarations named, not numbered"""
    d = decl_names(ex)
    return re.sub(r"\((\d+), '(0x[0-9a-f]+)'\)", lambda m: '(%s)' % (d.get(m.group(2)) or '?'), nm)


DBG = os.environ.get('VCG_CAND')
_dbg = [0]


def debug(ex, when, cand, g):
    if DBG and DBG in cand[0]:
        _dbg[0] += 1
        print('CAND dropped', when, cand[0], 'npc', len(ex.st.pc), ex.where(), 'dump', _dbg[0])
        z = ex.new_solver()
        z.add(*ex.st.pc)
        z.add(z3.Not(g))
        open('/tmp/dev/cand%d.smt2' % _dbg[0], 'w').write(z.to_smt2())


def unsats(ex, fs, tmo):
    """[is pc /\\ f unsatisfiable], checked in parallel when there are many"""
    n = len(fs)
    k = min(6, n // 8)
    if k < 2:
        return [ex.check(f, tmo) == z3.unsat for f in fs]
    ex.solver()
    res = [False] * n
    kids = []
    for c in range(k):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                n0, t0 = ex.nchecks, ex.solver_time
                out = []
                for i in range(c, n, k):
                    out.append((i, ex.check(fs[i], tmo) == z3.unsat))
                d = pickle.dumps((out, ex.nchecks - n0, ex.solver_time - t0))
                with os.fdopen(w, 'wb') as f:
                    f.write(d)
                code = 0
            except BaseException:
                pass
            finally:
                os._exit(code)
        os.close(w)
        kids.append((pid, r))
    for pid, r in kids:
        with os.fdopen(r, 'rb') as f:
            d = f.read()
        os.waitpid(pid, 0)
        if d:
            out, nc, tm = pickle.loads(d)
            ex.nchecks += nc
            ex.solver_time += tm
            for i, v in out:
                res[i] = v
    return res


def analyse(ex, n, cond, body, inc, pre):
    t_start = time.time()
    s0 = ex.st.copy()
    writes0 = s0.writes
    rec = ex.record
    it = ex._iteration(cond, body, inc, pre)
    mod = dict(env=set(), heap={}, alloc=False, ghost=set(), envt=env_types(ex))
    saved = (ex.run, ex.st)

    def head(cands):
        """state at an arbitrary iteration"""
        st = s0.copy()
        st.writes = []
        run = Run(ex, None, [])
        run.cache = {}
        ex.run, ex.st = run, st
        try:
            havoc(ex, st, mod, s0)
            for nm, f in cands:
                g = f(ex)
                if g is not None:
                    ex.assume(g)
        except Infeasible:
            st.pc.append(z3.BoolVal(False))
        finally:
            ex.run, ex.st = saved
        st.writes = []
        return st

    # ---- 1. frame
    ex.record = False
    nested = getattr(ex, 'loopdepth', 0)
    ex.loopdepth = nested + 1
    fo = ex.__dict__.get('frame_only')
    try:
        ex.frame_only = True
        for rnd in range(8):
            cands0 = list(base_candidates(ex, s0, mod, n)) if rnd else []
            st = head([])
            outs = ex.explore(st, it, {}, maxpaths=600)
            allw = []
            for dec, kind, val, fst, run, frs in outs:
                allw.extend(fst.writes)
            if not merge(ex, mod, allw, s0):
                break
        else:
            raise Unsupported('loop frame does not stabilise')
        ex.frame_only = fo
        # ---- 2. candidates
        cands = []
        hints = ex.__dict__.setdefault('houdini', {})
        if nested == 0:
            hints.clear()
        hkey = (n.get('id'), len(ex.frames))
        allc = [] if ex.__dict__.get('frame_only') else all_candidates(ex, s0, mod, n)
        lk = loop_key(ex, n)
        want = ex.inv_hints.get(lk) if ex.__dict__.get('inv_hints') is not None else None
        if want is not None and not ex.__dict__.get('frame_only'):
            want = set(want)
            allc = [c for c in allc if norm_name(ex, c[0]) in want]
        # an inner loop is met again under weaker assumptions only: what failed before fails again
        hint = hints.get(hkey) if nested else None
        if hint is not None:
            if len(allc) == hint[0]:
                allc = [c for i, c in enumerate(allc) if i in hint[1]]
            else:
                hint = None
        index = {id(c): i for i, c in enumerate(allc)} if hint is None else {id(c): i for c, i in zip(allc, sorted(hint[1]))}
        total = len(allc) if hint is None else hint[0]
        ex.run, ex.st = Run(ex, None, []), s0.copy()
        ex.run.cache = {}
        try:
            todo, keep = [], set()
            for i, cand in enumerate(allc):
                try:
                    g = cand[1](ex)
                except (Unsupported, KeyError):
                    continue
                if g is None:
                    continue
                if is_true(simp(g)):
                    keep.add(i)
                else:
                    todo.append((i, g))
            for (i, g), ok in zip(todo, unsats(ex, [z3.Not(g) for _, g in todo], 300)):
                if ok:
                    keep.add(i)
                else:
                    debug(ex, 'entry', allc[i], g)
            cands = [c for i, c in enumerate(allc) if i in keep]
        finally:
            ex.run, ex.st = saved
        rounds = 0
        while True:
            rounds += 1
            st = head(cands)
            cache = {}
            outs = ex.explore(st, it, cache, maxpaths=600)
            drop = set()
            for dec, kind, val, fst, run, frs in outs:
                if kind != 'next':
                    continue
                ex.run, ex.st = run, fst
                fr_saved = ex.frames
                ex.frames = frs
                try:
                    todo = [(i, nm, f) for i, (nm, f) in enumerate(cands) if i not in drop]
                    gs = []
                    for i, nm, f in todo:
                        try:
                            g = f(ex)
                        except (Unsupported, KeyError):
                            drop.add(i)
                            continue
                        if g is None:
                            continue
                        gs.append((i, g))
                    # all at once, then one by one
                    if gs and ex.check(z3.Not(z3.And([g for _, g in gs])), 600) != z3.unsat:
                        gs = [(i, g) for i, g in gs if not is_true(simp(g))]
                        for (i, g), ok in zip(gs, unsats(ex, [z3.Not(g) for _, g in gs], 400)):
                            if not ok:
                                drop.add(i)
                                debug(ex, 'round %d' % rounds, cands[i], g)
                finally:
                    ex.frames = fr_saved
                    ex.run, ex.st = saved
            if not drop:
                break
            cands = [c for i, c in enumerate(cands) if i not in drop]
            if rounds > 12:
                cands = []
        if nested and not ex.__dict__.get('frame_only'):
            hints[hkey] = (total, set(index[id(c)] for c in cands))
    finally:
        ex.frame_only = fo
        ex.record = rec
        ex.loopdepth = nested
        ex.run, ex.st = saved
    # ---- 3. the recorded pass
    st = head(cands)
    st.writes = writes0
    cache = {}
    outs = ex.explore(st, it, cache, maxpaths=600)
    if rec:
        for nm, f in cands:
            ex.count_aux('loop invariant in %s: %s' % (ex.where(), nm))
    exits = []
    for dec, kind, val, fst, run, frs in outs:
        if kind in ('exit', 'break', 'return', 'throw'):
            exits.append((dec, kind))
    # the ways out that continue after the loop become one state
    outm = [o for o in outs if o[1] in ('exit', 'break')]
    if 1 < len(outm) <= 12:
        m = core.merge_outcomes(st, [(o[3], None) for o in outm])
        if m is not None:
            m[0].writes = None
            exits = [(m[0], 'merged')] + [(dec, kind) for dec, kind in exits if kind not in ('exit', 'break')]
    modlog = [('env', k, None) for k in mod['env']] + [('ghost', g, None) for g in mod['ghost']]
    for key, (t, refs) in mod['heap'].items():
        if refs is None:
            modlog.append(('heap', key, None, t))
        else:
            for r in refs:
                modlog.append(('heap', key, r, t))
    if mod['alloc']:
        modlog.append(('alloc', None, None))
    ex.loops.append(dict(where=ex.where(), key=loop_key(ex, n), kept_names=sorted(set(norm_name(ex, c[0]) for c in cands)), kept=[c[0] for c in cands], paths=len(outs), rounds=rounds,
                         secs=round(time.time() - t_start, 1),
                         mod=sorted(str(k) for k in mod['heap']) + sorted(mod['ghost'])))
    return dict(exits=exits, state=st, cache=cache, writes0=writes0, modlog=modlog)


# ---------------------------------------------------------------- candidate templates
def base_candidates(ex, s0, mod, n):
    return []


def int_terms(ex, s0, mod):
    """modified integer-valued things: (name, entry value, fn(ex)->value)"""
    out = []
    for key in sorted(mod['env'], key=str):
        v = s0.env.get(key)
        if isinstance(v, VIter):
            out.append(('it%s' % (key,), v.pos, lambda ex, key=key: ex.st.env[key].pos))
        elif isinstance(v, VVec):
            out.append(('len%s' % (key,), v.len, lambda ex, key=key: ex.st.env[key].len))
        elif isinstance(v, z3.ExprRef) and v.sort() == I:
            t = mod['envt'].get(key)
            if t is not None and t.k == 'int':
                out.append(('v%s' % (key,), v, lambda ex, key=key: ex.st.env[key]))
    for key, (t, refs) in sorted(mod['heap'].items()):
        if refs is None:
            continue
        for r in refs:
            if t.k == 'int':
                v = z3.Select(_h(s0, key, I), r)
                out.append(('%s' % key, v, lambda ex, key=key, r=r: ex.rsel(z3.Select(ex.harr(key, I), r))))
            elif t.k == 'vec':
                v = z3.Select(_h(s0, key + '.len', I), r)
                out.append(('%s.len' % key, v, lambda ex, key=key, r=r: ex.rsel(z3.Select(ex.harr(key + '.len', I), r))))
            elif t.k in ('map', 'set'):
                v = z3.Select(_h(s0, key + '.size', I), r)
                out.append(('%s.size' % key, v, lambda ex, key=key, r=r: ex.rsel(z3.Select(ex.harr(key + '.size', I), r))))
    for g in sorted(mod['ghost']):
        v = s0.ghost[g]
        if isinstance(v, z3.ExprRef) and v.sort() == I:
            out.append(('ghost ' + g, v, lambda ex, g=g: ex.st.ghost[g]))
    return out


def _h(st, key, sort):
    a = st.heap.get(key)
    if a is None:
        a = z3.Const('H0!' + key, z3.ArraySort(I, sort))
    return a


def bool_terms(ex, s0, mod):
    out = []
    for key in sorted(mod['env'], key=str):
        v = s0.env.get(key)
        if isinstance(v, z3.ExprRef) and v.sort() == B:
            out.append(('v%s' % (key,), v, lambda ex, key=key: ex.st.env[key]))
    for key, (t, refs) in sorted(mod['heap'].items()):
        if refs is not None and t.k == 'bool':
            for r in refs:
                v = z3.Select(_h(s0, key, B), r)
                out.append((key, v, lambda ex, key=key, r=r: ex.rsel(z3.Select(ex.harr(key, B), r))))
    for g in sorted(mod['ghost']):
        v = s0.ghost[g]
        if isinstance(v, z3.ExprRef) and v.sort() == B:
            out.append(('ghost ' + g, v, lambda ex, g=g: ex.st.ghost[g]))
    return out


def bound_terms(ex, s0, mod):
    """loop-invariant upper bounds worth trying: container lengths, unmodified locals, ghost counters"""
    out = []
    seen = set()

    def add(nm, v):
        if v.get_id() in seen:
            return
        seen.add(v.get_id())
        out.append((nm, v))
    for key, v in s0.env.items():
        if key in mod['env']:
            if isinstance(v, VIter):
                try:
                    saved = ex.run, ex.st
                    ex.run, ex.st = Run(ex, None, []), s0.copy()
                    c = ex.load(v.loc)
                    ex.run, ex.st = saved
                    add('size of container', c.len if isinstance(c, VVec) else c.size)
                except Exception:
                    ex.run, ex.st = saved
            continue
        fr = ex.frames[-1].n
        if isinstance(key, tuple) and key[0] != fr:
            continue
        if isinstance(v, VVec):
            add('len%s' % (key,), v.len)
        elif isinstance(v, z3.ExprRef) and v.sort() == I and mod['envt'].get(key) is not None and mod['envt'][key].k == 'int':
            add('v%s' % (key,), v)
    return out[:6]


def cond_bounds(ex, s0, n):
    """operands of the comparisons in the loop condition, evaluated at entry (candidate bounds only)"""
    cond = None
    xs = n.get('inner', [])
    if n['kind'] == 'ForStmt' and len(xs) > 2:
        cond = xs[2]
    elif n['kind'] == 'WhileStmt':
        cond = xs[-2] if len(xs) > 1 else None
    elif n['kind'] == 'DoStmt':
        cond = xs[-1]
    out = []

    def walk(e):
        if not isinstance(e, dict) or not e.get('kind'):
            return
        if e['kind'] == 'LambdaExpr':
            return
        if e['kind'] == 'BinaryOperator' and e.get('opcode') in ('<', '<=', '>', '>=', '!='):
            for side in e['inner']:
                saved = ex.run, ex.st, ex.record, ex.cur
                try:
                    ex.run, ex.st, ex.record = Run(ex, None, []), s0.copy(), False
                    ex.run.cache = {}
                    v = ex.scal(ex.ev(side))
                    if isinstance(v, z3.ExprRef) and v.sort() == I and not z3.is_int_value(v):
                        out.append(('bound', v))
                except Exception:
                    pass
                finally:
                    ex.run, ex.st, ex.record, ex.cur = saved
        for c in e.get('inner', []):
            walk(c)
    walk(cond)
    return out


def all_candidates(ex, s0, mod, n):
    out = ex.spec.only_candidates(ex, s0, mod) if hasattr(ex.spec, 'only_candidates') else None
    if out is not None:
        return out
    out = []
    ints = int_terms(ex, s0, mod)
    bools = bool_terms(ex, s0, mod)
    for nm, v0, f in ints:
        out.append((nm + ' >= entry', lambda ex, v0=v0, f=f: f(ex) >= v0))
        out.append((nm + ' <= entry', lambda ex, v0=v0, f=f: f(ex) <= v0))
    for i in range(len(ints)):
        for j in range(i + 1, min(len(ints), i + 8)):
            a, b = ints[i], ints[j]
            out.append(('%s - %s const' % (a[0], b[0]), lambda ex, a=a, b=b: a[2](ex) - b[2](ex) == a[1] - b[1]))
            out.append(('%s + %s const' % (a[0], b[0]), lambda ex, a=a, b=b: a[2](ex) + b[2](ex) == a[1] + b[1]))
    bts = bound_terms(ex, s0, mod)
    seen = set(b.get_id() for _, b in bts)
    cbs = cond_bounds(ex, s0, n)
    for nm, v0, f in ints:
        for bn, b in cbs:
            out.append(('%s >= %s' % (nm, bn), lambda ex, f=f, b=b: f(ex) >= b))
            out.append(('%s >= %s - 1' % (nm, bn), lambda ex, f=f, b=b: f(ex) >= b - 1))
    bts = bts + [x for x in cbs if x[1].get_id() not in seen]
    for nm, v0, f in ints:
        for bn, b in bts:
            out.append(('%s <= %s' % (nm, bn), lambda ex, f=f, b=b: f(ex) <= b))
    for nm, v0, f in bools:
        out.append((nm + ' == entry', lambda ex, v0=v0, f=f: f(ex) == v0))
        out.append((nm + ' or entry', lambda ex, v0=v0, f=f: z3.Implies(v0, f(ex))))
        out.append((nm + ' and entry', lambda ex, v0=v0, f=f: z3.Implies(f(ex), v0)))
    # iterators stay within their container
    for key in mod['env']:
        v = s0.env.get(key)
        if isinstance(v, VIter):
            def itb(ex, key=key):
                it = ex.st.env[key]
                if not isinstance(it, VIter) or not same_loc(it.loc, s0.env[key].loc):
                    raise Unsupported('iterator moved to another container')
                c = ex.load(it.loc)
                return z3.And(it.pos >= 0, it.pos <= (c.len if isinstance(c, VVec) else c.size))
            out.append(('iterator in range', itb))
    # frames of whole-array havoc
    r = z3.Int('r!fr')
    for key, (t, refs) in sorted(mod['heap'].items()):
        if refs is not None:
            continue
        for suf, sort in ex.comps(t):
            k = key + suf
            a0 = _h(s0, k, sort)

            def fr(ex, k=k, a0=a0, sort=sort, extra=None):
                a = ex.harr(k, sort)
                if a.eq(a0):
                    return z3.BoolVal(True)
                g = z3.And(r < s0.alloc) if extra is None else z3.And(r < s0.alloc, z3.Not(extra(r)))
                return ForAll([r], z3.Implies(g, z3.Select(a, r) == z3.Select(a0, r)), patterns=[z3.Select(a, r)])
            out.append(('frame %s' % k, fr))
            for en, ef in ex.spec.frame_exempt(ex):
                out.append(('frame %s except %s' % (k, en), lambda ex, fr=fr, ef=ef: fr(ex, extra=ef)))
    info = dict(mod=mod, node=n, ints=ints, bools=bools)
    out.extend(ex.spec.loop_candidates(ex, s0, info))
    return out
