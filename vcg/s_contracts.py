"""Contracts of internal functions of the server, each proved by a root of its own and used by its callers."""
import z3
from core import *
from spec import Contract
from engine import Root
from s_raft import *


def okctx(sp, ex, q, st=None):
    def go():
        sc = z3.Select(ex.harr('peer.snp_sync_ctx_', I), q)
        s = z3.Select(ex.harr('snapshot_sync_ctx.snapshot_', I), sc)
        o = z3.Select(ex.harr('snapshot_sync_ctx.offset_', I), sc)
        return z3.Implies(sc != 0, z3.And(s != 0, o < sp.sf(ex, 'size_', s)))
    return sp.at(ex, st or ex.st, go)


def pid(ex, q):
    return z3.Select(ex.harr('srv_config.id_', I), z3.Select(ex.harr('peer.config_', I), q))


def H(sp, ex, st, key, r, so=I):
    return sp.at(ex, st, lambda: z3.Select(ex.harr(key, so), r))


class SendToPeer(Contract):
    """request_append_entries(peer&): at most one request, marked busy, told the commit index"""

    def __init__(self, sp):
        self.sp = sp

    def mods(self, ex, this, vals):
        p = ex.scal(vals[0])
        return {'peer.busy_flag_': [p], 'peer.next_log_idx_': [p], 'peer.snp_sync_ctx_': [p]}, {'outst': [p], 'sentc': [p], 'nsend': None}

    def requires(self, ex, this, vals):
        sp = self.sp
        p = ex.scal(vals[0])
        g = ex.st.ghost
        m = sp.peers(ex)
        memb = z3.And(z3.Select(m.dom, pid(ex, p)), z3.Select(m.val, pid(ex, p)) == p)
        return [('C20', 'the server lock is held', z3.BoolVal(sp.held(ex))),
                ('C07', 'replication requests are made by a leader', sp.role(ex) == LEADER),
                ('aux', 'the member exists', z3.And(p > 0, p < ex.st.alloc, z3.Select(ex.harr('peer.config_', I), p) != 0)),
                ('C12', 'a transfer in progress is within its snapshot', okctx(sp, ex, p)),
                ('C23', 'a member with an outstanding request is marked busy, and only then', z3.Implies(memb, z3.Select(g['outst'], p) == sp.pf(ex, 'busy_flag_', p)))]

    def havoc(self, ex, this, vals):
        p = ex.scal(vals[0])
        ex.bump_alloc()
        g = ex.st.ghost
        for n in ('busy_flag_', 'next_log_idx_', 'snp_sync_ctx_'):
            ex.havoc_field('peer.' + n, ex.field('peer.' + n), p)
        ex.gset('outst', z3.Store(g['outst'], p, ex.fresh('outst', B)))
        ex.gset('sentc', z3.Store(g['sentc'], p, ex.fresh('sentc')))
        ex.gset('nsend', ex.fresh('nsend'))
        ex.st.ghost['$chunk'] = None

    def ensures(self, ex, old, this, vals, ret):
        sp = self.sp
        p = ex.scal(vals[0])
        g, o = ex.st.ghost, old.ghost
        busy0 = H(sp, ex, old, 'peer.busy_flag_', p, B)
        ret = ex.truth(ret)
        n0, n1 = H(sp, ex, old, 'peer.next_log_idx_', p), sp.pf(ex, 'next_log_idx_', p)
        c0, c1 = H(sp, ex, old, 'peer.snp_sync_ctx_', p), sp.pf(ex, 'snp_sync_ctx_', p)
        return [('C23', 'a request is made exactly when the member had none outstanding', ret == z3.Not(busy0)),
                ('C23', 'afterwards the member is marked busy', sp.pf(ex, 'busy_flag_', p)),
                ('C23', 'a request made is outstanding and states the commit index', z3.If(ret, z3.And(
                    z3.Select(g['outst'], p), z3.Select(g['sentc'], p) == sp.f(ex, 'quick_commit_idx_')), z3.And(
                    z3.Select(g['outst'], p) == z3.Select(o['outst'], p), z3.Select(g['sentc'], p) == z3.Select(o['sentc'], p)))),
                ('aux', 'the position of the member stays, or starts at the end of the log', z3.Or(n1 == n0, z3.And(ret, n0 == 0, n1 == g['lnext']))),
                ('C12', 'a transfer in progress is within its snapshot', okctx(sp, ex, p)),
                ('aux', 'the transfer stays, or a new one starts', z3.Or(c1 == c0, z3.And(ret, c1 >= old.alloc, c1 < ex.st.alloc))),
                ('aux', 'one request at most', g['nsend'] == o['nsend'] + z3.If(ret, z3.IntVal(1), z3.IntVal(0)))]


class HasConf(Contract):
    """has_conf_after(i): is there a membership entry after i in the log"""

    def __init__(self, sp):
        self.sp = sp

    def mods(self, ex, this, vals):
        return {}, {}

    def requires(self, ex, this, vals):
        return [('C20', 'the server lock is held', z3.BoolVal(self.sp.held(ex))),
                ('aux', 'the index is that of a log position', z3.And(ex.scal(vals[0]) >= 0, ex.scal(vals[0]) < MAX))]

    def havoc(self, ex, this, vals):
        ex.bump_alloc()

    def ensures(self, ex, old, this, vals, ret):
        g = old.ghost
        i = z3.Int('i!hc')
        inr = z3.And(i > ex.scal(vals[0]), i >= g['lstart'], i < g['lnext'], z3.Select(g['ltype'], i) == CONF)
        ret = ex.truth(ret)
        return [('C13', 'a pending membership entry is found', z3.Or(ret, ForAll([i], z3.Not(inr), patterns=[z3.Select(g['ltype'], i)]))),
                ('C13', 'what is found is a membership entry', z3.Or(z3.Not(ret), z3.Exists([i], inr)))]


class GetServer(Contract):
    """cluster_config::get_server(id): the listed server with this id, nil when there is none"""

    def mods(self, ex, this, vals):
        return {}, {}

    def requires(self, ex, this, vals):
        return []

    def havoc(self, ex, this, vals):
        pass

    def ensures(self, ex, old, this, vals, ret):
        sv = ex.get('cluster_config.servers_', this.ref)
        j = z3.Int('j!gs')
        e = z3.Select(sv.arr, j)
        ids = ex.harr('srv_config.id_', I)
        i, r = ex.scal(vals[0]), ex.scal(ret)
        inr = z3.And(j >= 0, j < sv.len)
        return [('C14', 'a server is found when it is listed', z3.Implies(r == 0, ForAll([j], z3.Implies(inr, z3.Select(ids, e) != i), patterns=[e]))),
                ('C14', 'what is found is a listed server with the id', z3.Implies(r != 0, z3.And(
                    z3.Select(ids, r) == i, z3.Exists([j], z3.And(inr, e == r)))))]


def table_inv(sp, ex):
    """the clauses of the invariant that speak about the member table"""
    return [x for x in sp.inv(ex) if x[0] in ('C14', 'C27', 'C12', 'C08', 'C23')]


def fresh_member(sp, ex, q, lo):
    """q is a member object made since lo: nothing sent, nothing confirmed, heartbeats as the role wants"""
    g = ex.st.ghost
    return z3.And(q >= lo, q < ex.st.alloc, z3.Not(sp.pf(ex, 'busy_flag_', q)), z3.Not(sp.pf(ex, 'pending_commit_flag_', q)),
                  z3.Not(z3.Select(g['outst'], q)), z3.Select(g['pconf'], q) == 0, sp.pf(ex, 'matched_idx_', q) == 0,
                  sp.pf(ex, 'snp_sync_ctx_', q) == 0, sp.pf(ex, 'hb_enabled_', q) == (sp.role(ex) == LEADER))


class Reconfigure(Contract):
    """reconfigure(c): the member table becomes that of c, members that stay keep their state"""

    def __init__(self, sp):
        self.sp = sp

    def mods(self, ex, this, vals):
        S = self.sp.srv
        return {'raft_server.peers_': [S], 'raft_server.config_': [S], 'raft_server.srv_to_join_': [S], 'peer.hb_enabled_': None}, {
            'pconf': None, 'outst': None, 'nsched': None}

    def requires(self, ex, this, vals):
        sp = self.sp
        c = ex.scal(vals[0])
        j = z3.Int('j!rc')
        sv = ex.get('cluster_config.servers_', c)
        e = z3.Select(sv.arr, j)
        return [('C20', 'the server lock is held', z3.BoolVal(sp.held(ex))),
                ('C14', 'there is a new membership', z3.And(c > 0, c < ex.st.alloc, sv.len >= 0, sv.len < 2 ** 20)),
                ('aux', 'its servers exist', ForAll([j], z3.Implies(z3.And(j >= 0, j < sv.len), z3.And(e > 0, e < ex.st.alloc)), patterns=[e]))] + [
                    x for x in table_inv(sp, ex)]

    def havoc(self, ex, this, vals):
        S = self.sp.srv
        old = ex.st.alloc
        ex.bump_alloc()
        for n in ('peers_', 'srv_to_join_'):
            ex.havoc_field('raft_server.' + n, ex.field('raft_server.' + n), S)
        ex.gset('nsched', ex.fresh('nsched'))
        # config_ is set by the contract's own write so that writes of it are judged at the caller
        ex.havoc_field('peer.hb_enabled_', ex.field('peer.hb_enabled_'), None)
        ex.store(LField('raft_server.config_', S, ex.field('raft_server.config_')), vals[0])

    def ensures(self, ex, old, this, vals, ret):
        sp = self.sp
        c = ex.scal(vals[0])
        k, r = z3.Ints('k!rc r!rc')
        m, m0 = sp.peers(ex), sp.peers(ex, old)
        g = ex.st.ghost
        hb1 = lambda q: sp.pf(ex, 'hb_enabled_', q)
        hb0 = lambda q: H(sp, ex, old, 'peer.hb_enabled_', q, B)
        v = z3.Select(m.val, k)
        sj0, sj1 = sp.f(ex, 'srv_to_join_', old), sp.f(ex, 'srv_to_join_')
        out = [x for x in table_inv(sp, ex)]
        out += [('C14', 'the new membership is in force', sp.f(ex, 'config_') == c),
                ('C14', 'members that stay keep their state, others start afresh', ForAll([k], z3.Implies(z3.Select(m.dom, k), z3.Or(
                    z3.And(z3.Select(m0.dom, k), v == z3.Select(m0.val, k), hb1(v) == hb0(v)), fresh_member(sp, ex, v, old.alloc))),
                    patterns=[z3.Select(m.dom, k)])),
                ('C27', 'no heartbeats are switched on for members that leave', ForAll([r], z3.Implies(z3.And(r > 0, r < old.alloc, hb1(r)), hb0(r)),
                                                                                patterns=[hb1(r)])),
                ('C14', 'the server that joins stays, or has joined', z3.Or(sj1 == sj0, sj1 == 0))]
        return out

    def own(self, ex, old, this, vals):
        """proved for the body only"""
        sp = self.sp
        k = z3.Int('k!ro')
        s = sp.newids
        m, m0 = sp.peers(ex), sp.peers(ex, old)
        g, o = ex.st.ghost, old.ghost
        return [('aux', 'frame: records of known members', ForAll([k], z3.Implies(k < old.alloc, z3.And(
                    z3.Select(g['pconf'], k) == z3.Select(o['pconf'], k), z3.Select(g['outst'], k) == z3.Select(o['outst'], k))))),
                ('C14', 'members added are named by the new membership', ForAll([k], z3.Implies(z3.And(
                    z3.Select(m.dom, k), z3.Not(z3.Select(m0.dom, k))), z3.Select(s, k)))),
                ('C14', 'members named by the new membership are not removed', ForAll([k], z3.Implies(z3.And(
                    z3.Select(m0.dom, k), z3.Select(s, k)), z3.Select(m.dom, k)))),
                ('C14', 'every other server the new membership names is a member', ForAll([k], z3.Implies(z3.And(
                    z3.Select(s, k), k != sp.f(ex, 'id_')), z3.Select(m.dom, k)))),
                ('C14', 'every member is named by the new membership', ForAll([k], z3.Implies(z3.Select(m.dom, k), z3.Select(s, k))))]


def contract_root(name, sp, tu, f, con, mkargs, mkthis=None):
    def setup(ex):
        sp.init_state(ex)
        sp.active = None
        # in force: the server lock, the state taken over
        sp.take_over(ex)
        ex.st.locks.append(('raft_server.lock_', sp.srv, 'excl', 'recursive_mutex'))
        vals = mkargs(ex)
        this = mkthis(ex) if mkthis else Obj(sp.srv, 'raft_server')
        for x in con.requires(ex, this, vals):
            ex.assume(x[-1])
        return this, vals, dict(vals=vals, this=this)

    def post(ex, kind, ret, c):
        if kind != 'return':
            ex.oblige('aux', 'ensures: ends normally', False, assume=False)
            return
        old = c['old']
        for tag, lab, frm in con.ensures(ex, old, c['this'], c['vals'], ret):
            ex.oblige(tag, 'ensures: ' + lab, frm, assume=False)
        if hasattr(con, 'own'):
            for tag, lab, frm in con.own(ex, old, c['this'], c['vals']):
                ex.oblige(tag, 'ensures: ' + lab, frm, assume=False)
        hm, gm = con.mods(ex, c['this'], c['vals'])
        r = z3.Int('r!fr')
        for k, a in ex.st.heap.items():
            b = old.heap.get(k)
            if b is None:
                b = z3.Const('H0!' + k, a.sort())
            if a.eq(b):
                continue
            base = k
            for suf in ('.len', '.arr', '.dom', '.val', '.size', '.keys', '.pos'):
                if k.endswith(suf):
                    base = k[:-len(suf)]
            if base in hm and hm[base] is None:
                continue
            ex.oblige('aux', 'frame: %s of other objects is unchanged' % base, ForAll([r], z3.Implies(
                z3.And(r < old.alloc, *[r != x for x in hm.get(base, [])]), z3.Select(a, r) == z3.Select(b, r))), assume=False)
        for k, a in ex.st.ghost.items():
            b = old.ghost.get(k)
            if not isinstance(a, z3.ExprRef) or b is None or a.eq(b):
                continue
            if k in gm and gm[k] is None:
                continue
            if k in gm:
                frm = ForAll([r], z3.Implies(z3.And(*[r != x for x in gm[k]]), z3.Select(a, r) == z3.Select(b, r)))
            else:
                frm = a == b
            ex.oblige('aux', 'frame: ghost %s' % k, frm, assume=False)
    return Root('contract of ' + name, sp, tu, setup, post, func=f)


def contracts(sp, ex, f):
    """the contract by which calls of f are checked, or None (inlined)"""
    if f.cls == 'cluster_config' and f.name == 'get_server' and f.body is not None and len(f.params) == 1 and sp.active != f.name:
        return GetServer()
    if f.cls != 'raft_server' or f.body is None:
        return None
    if f.name == 'request_append_entries' and len(f.params) == 1 and sp.active != f.name:
        return SendToPeer(sp)
    if f.name == 'has_conf_after' and len(f.params) == 1 and sp.active != f.name:
        return HasConf(sp)
    if f.name == 'reconfigure' and len(f.params) == 1 and sp.active != f.name:
        return Reconfigure(sp)
    return None
