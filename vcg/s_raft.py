"""The server: raft_server*.cxx and peer.cxx under contract.

Interfaces (log_store, state_mgr, state_machine, rpc_client, delayed_task_scheduler, event_listener) carry
contracts over ghost state; the server invariant (inv()) is assumed when the server lock is taken for the
outermost time (the state is arbitrary then: any history, any schedule) and must hold again when it is
released; the two-state properties compare these two points.  Every entry point of the server is a root."""
import os, tempfile
import z3
from core import *
import cast
from ctypes_ import T, U64, INT32, BOOL
from spec import Spec, Contract
from engine import Root
import lib

BYPROP = True
AI = z3.ArraySort(I, I)
AB = z3.ArraySort(I, B)
SRC = ['buffer', 'cluster_config', 'srv_config', 'snapshot', 'snapshot_sync_req', 'peer', 'raft_server', 'raft_server_req_handlers',
       'raft_server_resp_handlers']
APP, CONF, CSRV, PACK, SNPREQ = 1, 2, 3, 4, 5
FOLLOWER, CANDIDATE, LEADER = 1, 2, 3
MT = dict(vote_request=1, vote_response=2, append_entries_request=3, append_entries_response=4, client_request=5, add_server_request=6,
          add_server_response=7, remove_server_request=8, remove_server_response=9, sync_log_request=10, sync_log_response=11,
          join_cluster_request=12, join_cluster_response=13, leave_cluster_request=14, leave_cluster_response=15,
          install_snapshot_request=16, install_snapshot_response=17, prevote_request=18, prevote_response=19)
MAX = 2 ** 62

# content of serialised objects (justified by C16)
cfI, cfP, cfN = [z3.Function(n, I, I) for n in ('conf_log_idx', 'conf_prev_idx', 'conf_count')]
cfId = z3.Function('conf_id', I, I, I)
cfEp = z3.Function('conf_endpoint', I, I, I)
scId, scEp = [z3.Function(n, I, I) for n in ('srv_id', 'srv_endpoint')]
ssIdx, ssTerm, ssSize, ssConf, ssOff, ssData, ssDSz = [z3.Function('ss_' + n, I, I) for n in ('idx', 'term', 'size', 'conf', 'off', 'data', 'datasize')]
ssDone = z3.Function('ss_done', I, B)
intAt = z3.Function('int_at', I, I, I)
pkDiff = z3.Function('pack_content', I, I, I, I)
cge = lib.count_ge


def load():
    inc = ''.join('#include "%s"\n' % os.path.join(cast.REPO, 'src', s + '.cxx') for s in SRC)
    d = tempfile.mkdtemp(prefix='vcg')
    p = os.path.join(d, 'raft_unity.cxx')
    try:
        with open(p, 'w') as f:
            f.write(inc)
        return cast.TU(p)
    finally:
        try:
            os.unlink(p)
            os.rmdir(d)
        except OSError:
            pass


memP = z3.Function('memP', AI, I, I, B)     # an id is that of one of the first n servers listed
memI = z3.Function('memI', AI, I, I, B)     # an id is one of the first n listed


def mem_axioms(ex):
    a = z3.Const('a!mm', AI)
    n, m, e, x = z3.Ints('n!mm m!mm e!mm x!mm')
    ids = ex.harr('srv_config.id_', I)
    for fn, el, nm in ((memP, lambda q: z3.Select(ids, q), 'P'), (memI, lambda q: q, 'I')):
        w = z3.Function('memw' + nm, AI, I, I, I)
        ex.assume(ForAll([a, n, x], z3.Implies(fn(a, n, x), z3.And(w(a, n, x) >= 0, w(a, n, x) < n, el(z3.Select(a, w(a, n, x))) == x)), patterns=[fn(a, n, x)]))
        ex.assume(ForAll([a, n, e, m, x], z3.Implies(z3.And(n >= 0, m == n + 1), fn(z3.Store(a, n, e), m, x) == z3.Or(fn(a, n, x), x == el(e))),
                         patterns=[fn(z3.Store(a, n, e), m, x)]))


class RaftSpec(Spec):
    name = 'raft'
    CONSTF = ('id_', 'ctx_', 'scheduler_', 'log_store_', 'state_machine_', 'state_', 'l_', 'lock_', 'commit_lock_', 'rpc_clients_lock_',
              'peers_lock_', 'commit_cv_', 'stopping_lock_', 'ready_to_stop_cv_', 'resp_handler_', 'ex_resp_handler_', 'election_exec_',
              'rand_timeout_')
    PEERCONST = ('config_', 'scheduler_', 'rpc_', 'hb_interval_', 'rpc_backoff_', 'max_hb_interval_', 'hb_task_', 'lock_')
    KEEP_SM = False

    # ------------------------------------------------------------ access helpers
    def S(self, ex):
        return self.srv

    def f(self, ex, name, st=None):
        """field of the server, in the given state"""
        if st is None:
            return ex.get('raft_server.' + name, self.srv)
        cur, ex.st = ex.st, st
        try:
            return ex.get('raft_server.' + name, self.srv)
        finally:
            ex.st = cur

    def at(self, ex, st, fn):
        cur, ex.st = ex.st, st
        try:
            return fn()
        finally:
            ex.st = cur

    def term(self, ex, st=None):
        return self.at(ex, st or ex.st, lambda: ex.get('srv_state.term_', ex.get('raft_server.state_', self.srv)))

    def vote(self, ex, st=None):
        return self.at(ex, st or ex.st, lambda: ex.get('srv_state.voted_for_', ex.get('raft_server.state_', self.srv)))

    def role(self, ex, st=None):
        return self.f(ex, 'role_', st)

    def g(self, ex, n, st=None):
        return (st or ex.st).ghost[n]

    def pf(self, ex, fld, p):
        """peer field as a term, without well-formedness side conditions (for use under quantifiers)"""
        t = ex.field('peer.' + fld)
        return z3.Select(ex.harr('peer.' + fld, B if t.k == 'bool' else I), p)

    def peers(self, ex, st=None):
        return self.f(ex, 'peers_', st)

    def held(self, ex, key='raft_server.lock_', excl=False):
        return any(l is not None and l[0] == key and l[1].eq(self.srv) and (not excl or l[2] == 'excl') for l in ex.st.locks)

    # ------------------------------------------------------------ initial state
    GHOSTS = [('lstart', I), ('lnext', I), ('lterm', AI), ('ltype', AI), ('ldata', AI), ('PT', I), ('PV', I), ('vset', AB), ('vcard', I),
              ('pvset', AB), ('pvcard', I), ('pconf', AI), ('outst', AB), ('sentc', AI), ('cfgidx', I), ('cfgset', AB)]

    def init_state(self, ex):
        self.srv = z3.Int('server')
        ex.assume(z3.And(self.srv > 0, self.srv < ex.st.alloc))
        ex.assume(ex.st.alloc < 2 ** 60)
        for n, s in self.GHOSTS:
            ex.st.ghost[n] = z3.Const('g0!' + n, s)
        # per-operation history
        self.reset_op(ex)
        ex.st.ghost['$old'] = None
        for n in ('ctx_', 'scheduler_', 'log_store_', 'state_machine_', 'state_', 'l_'):
            ex.assume(self.f(ex, n) != 0)
        ctx = self.f(ex, 'ctx_')
        for n in ('state_mgr_', 'state_machine_', 'params_', 'rpc_cli_factory_', 'scheduler_', 'logger_'):
            ex.assume(ex.get('context.' + n, ctx) != 0)
        ex.assume(self.f(ex, 'id_') >= 0)                  # -1 stands for 'no vote'
        # parameters within their documented ranges
        pr = ex.get('context.params_', ctx)
        for n, lo in (('max_append_size_', 1), ('snapshot_block_size_', 0), ('snapshot_distance_', 0), ('reserved_log_items_', 0),
                      ('log_sync_batch_size_', 1), ('log_sync_stop_gap_', 0), ('heart_beat_interval_', 1), ('rpc_failure_backoff_', 0),
                      ('election_timeout_lower_bound_', 1), ('election_timeout_upper_bound_', 1)):
            ex.assume(z3.And(ex.get('raft_params.' + n, pr) >= lo, ex.get('raft_params.' + n, pr) < 2 ** 29))

    def reset_op(self, ex):
        g = ex.st.ghost
        g['wlo'] = z3.IntVal(MAX * 2)        # lowest index written in this operation
        g['owe'] = z3.IntVal(0)              # application entry added but not announced yet
        g['rb'] = z3.K(I, z3.BoolVal(False))  # rolled back, not yet removed
        g['nsend'] = z3.IntVal(0)
        g['nsched'] = z3.IntVal(0)
        g['confw'] = z3.IntVal(0)

    def params(self, ex, name):
        return ex.get('raft_params.' + name, ex.get('context.params_', self.f(ex, 'ctx_')))

    # ------------------------------------------------------------ the invariant
    def inv(self, ex):
        """[(tag, label, formula)]"""
        out = []
        g = ex.st.ghost
        m = self.peers(ex)
        k, i, p = z3.Ints('k!i i!i p!i')
        ids = self.f(ex, 'id_')
        role = self.role(ex)
        T_, V = self.term(ex), self.vote(ex)
        out.append(('C01', 'the term in force has been saved', T_ == g['PT']))
        out.append(('C02', 'the vote in force has been saved', V == g['PV']))
        out.append(('C20', 'role is one of follower, candidate, leader', z3.And(role >= 1, role <= 3)))
        val = m.val
        pid = lambda q: z3.Select(ex.harr('srv_config.id_', I), z3.Select(ex.harr('peer.config_', I), q))
        out.append(('C14', 'the member table maps ids to the members with these ids, never to the server itself', z3.And(
            z3.Not(z3.Select(m.dom, ids)),
            ForAll([k], z3.Implies(z3.Select(m.dom, k), z3.And(z3.Select(val, k) > 0, z3.Select(ex.harr('peer.config_', I), z3.Select(val, k)) != 0,
                                                               pid(z3.Select(val, k)) == k, k != ids)), patterns=[z3.Select(m.dom, k)]))))
        cfg = self.f(ex, 'config_')
        out.append(('C14', 'there is a membership', cfg != 0))
        sj = self.f(ex, 'srv_to_join_')
        out.append(('C14', 'a joining server is not a member yet', z3.And(
            ForAll([k], z3.Implies(z3.And(z3.Select(m.dom, k), sj != 0), z3.Select(val, k) != sj), patterns=[z3.Select(m.dom, k)]),
            z3.Implies(sj != 0, z3.And(self.f(ex, 'conf_to_add_') != 0, z3.Select(ex.harr('peer.config_', I), sj) != 0)))))
        # votes
        vs = self.f(ex, 'voted_servers_')
        out.append(('C04', 'granted votes are at most the distinct servers that granted one in this term', z3.And(
            self.f(ex, 'votes_granted_') <= g['vcard'], g['vcard'] >= 0,
            ForAll([k], z3.Implies(z3.Select(g['vset'], k), z3.Select(vs.dom, k)), patterns=[z3.Select(g['vset'], k)]))))
        ps = self.f(ex, 'prevote_state_')
        pvd = z3.Select(ex.harr('prevote_state.voted_servers_.dom', AB), ps)
        out.append(('C22', 'accepted pre-votes are at most the distinct servers that accepted', z3.Implies(ps != 0, z3.And(
            z3.Select(ex.harr('prevote_state.accepted_votes_', I), ps) <= g['pvcard'], g['pvcard'] >= 0,
            ForAll([k], z3.Implies(z3.Select(g['pvset'], k), z3.Select(pvd, k)), patterns=[z3.Select(g['pvset'], k)])))))
        out.append(('C04', 'a server that is joining is a follower and asks for no votes', z3.Implies(self.f(ex, 'catching_up_'), z3.And(
            role == FOLLOWER, V != ids, ps == 0))))
        out.append(('C04', 'the election of a leader is over', z3.Implies(role == LEADER, self.f(ex, 'election_completed_'))))
        out.append(('C22', 'a pre-vote goes on at a follower only', z3.Implies(ps != 0, role == FOLLOWER)))
        # replication
        out.append(('C08', 'a leader credits members only with what they confirmed', z3.Implies(role == LEADER, ForAll(
            [k], z3.Implies(z3.Select(m.dom, k), self.pf(ex, 'matched_idx_', z3.Select(val, k)) <= z3.Select(g['pconf'], z3.Select(val, k))),
            patterns=[z3.Select(m.dom, k)]))))
        out.append(('C08', 'confirmed positions lie within the log', z3.Implies(role == LEADER, ForAll(
            [k], z3.Implies(z3.Select(m.dom, k), z3.Select(g['pconf'], z3.Select(val, k)) < g['lnext']), patterns=[z3.Select(m.dom, k)]))))
        out.append(('C23', 'a member with an outstanding request is marked busy, and only then', z3.Implies(role == LEADER, ForAll(
            [k], z3.Implies(z3.Select(m.dom, k), z3.Select(g['outst'], z3.Select(val, k)) == self.pf(ex, 'busy_flag_', z3.Select(val, k))),
            patterns=[z3.Select(m.dom, k)]))))
        out.append(('C23', 'a busy member that was not told the commit index is marked for another request', z3.Implies(role == LEADER, ForAll(
            [k], z3.Implies(z3.And(z3.Select(m.dom, k), z3.Select(g['outst'], z3.Select(val, k)),
                                   z3.Select(g['sentc'], z3.Select(val, k)) < self.f(ex, 'quick_commit_idx_')),
                            self.pf(ex, 'pending_commit_flag_', z3.Select(val, k))), patterns=[z3.Select(m.dom, k)]))))
        out.append(('C27', 'heartbeats are off unless leading', z3.Implies(role != LEADER, ForAll(
            [k], z3.Implies(z3.Select(m.dom, k), z3.Not(self.pf(ex, 'hb_enabled_', z3.Select(val, k)))), patterns=[z3.Select(m.dom, k)]))))
        out.append(('C10', 'nothing is applied beyond the commit index', self.f(ex, 'sm_commit_index_') <= self.f(ex, 'quick_commit_idx_')))
        # membership entries
        out.append(('C13', 'an uncommitted membership entry keeps the change pending', z3.Implies(z3.Not(self.f(ex, 'catching_up_')), ForAll(
            [i], z3.Implies(z3.And(i > self.f(ex, 'quick_commit_idx_'), i < g['lnext'], i >= g['lstart'], z3.Select(g['ltype'], i) == CONF), self.f(ex, 'config_changing_')),
            patterns=[z3.Select(g['ltype'], i)]))))
        # snapshots
        sn = self.f(ex, 'last_snapshot_')
        out.append(('C24', 'the last snapshot carries a configuration not newer than itself', z3.Implies(sn != 0, z3.And(
            self.sf(ex, 'last_config_', sn) != 0,
            z3.Select(ex.harr('cluster_config.log_idx_', I), self.sf(ex, 'last_config_', sn)) <= self.sf(ex, 'last_log_idx_', sn)))))
        sc = lambda q: z3.Select(ex.harr('peer.snp_sync_ctx_', I), q)
        scs = lambda q: z3.Select(ex.harr('snapshot_sync_ctx.snapshot_', I), sc(q))
        sco = lambda q: z3.Select(ex.harr('snapshot_sync_ctx.offset_', I), sc(q))
        okctx = lambda q: z3.Implies(sc(q) != 0, z3.And(scs(q) != 0, sco(q) < self.sf(ex, 'size_', scs(q))))
        out.append(('C12', 'a snapshot transfer in progress is within the snapshot', z3.And(
            ForAll([k], z3.Implies(z3.Select(m.dom, k), okctx(z3.Select(val, k))), patterns=[z3.Select(m.dom, k)]), z3.Implies(sj != 0, okctx(sj)))))
        return out

    def sf(self, ex, fld, s):
        return z3.Select(ex.harr('snapshot.' + fld, I), s)

    def log_wf(self, ex):
        g = ex.st.ghost
        ex.assume(z3.And(g['lstart'] >= 1, g['lnext'] >= g['lstart'], g['lnext'] < MAX, z3.Select(g['lterm'], 0) == 0))

    def state_wf(self, ex):
        """facts of the interface contracts and of reachable magnitudes, assumed whenever the state is taken over"""
        self.log_wf(ex)
        i = z3.Int('i!w')
        g = ex.st.ghost
        ex.assume(ForAll([i], z3.And(z3.Select(g['lterm'], i) >= 0, z3.Select(g['lterm'], i) < 2 ** 64), patterns=[z3.Select(g['lterm'], i)]))
        ex.assume(self.term(ex) < MAX)
        ex.assume(z3.And(self.f(ex, 'quick_commit_idx_') < MAX, self.f(ex, 'sm_commit_index_') < MAX))
        m = self.peers(ex)
        ex.assume(m.size < 2 ** 20)
        ex.assume(self.f(ex, 'votes_granted_') >= 0)
        ex.assume(self.f(ex, 'config_') != 0)
        # the first entry of a cluster's log is its membership: a server with a snapshot knows a recorded membership
        ex.assume(z3.Implies(self.f(ex, 'last_snapshot_') != 0, ex.get('cluster_config.log_idx_', self.f(ex, 'config_')) > 0))
        q = z3.Int('q!w')
        ex.assume(ForAll([q], self.sf(ex, 'last_log_idx_', q) < MAX, patterns=[self.sf(ex, 'last_log_idx_', q)]))
        self.cfgS = None
        if (ex.st.ghost.get('$confkind') or ('',))[0] == 'remove':
            self.cfgS = self.idset(ex, self.f(ex, 'config_'))

    # ------------------------------------------------------------ lock discipline
    PTRS = ('peer.config_', 'peer.snp_sync_ctx_', 'peer.rpc_', 'peer.hb_task_', 'snapshot_sync_ctx.snapshot_', 'snapshot.last_config_', 'log_entry.buff_')

    def havoc_shared(self, ex):
        ex.bump_alloc()
        rec = ex.tu.records['raft_server']
        keep = {'sm_commit_index_': self.f(ex, 'sm_commit_index_')} if self.KEEP_SM else {}
        for n, t, _, _ in rec.fields:
            if n in self.CONSTF or n in keep:
                continue
            t = ex.types.of(t)
            if t.k in ('mutex', 'cv', 'opaque', 'fn', 'arr'):
                continue
            ex.havoc_field('raft_server.' + n, t, self.srv)
        for cls, skip in (('peer', self.PEERCONST), ('srv_state', ()), ('prevote_state', ()), ('snapshot_sync_ctx', ())):
            for n, t, _, _ in ex.tu.records[cls].fields:
                t = ex.types.of(t)
                if n in skip or t.k in ('mutex', 'cv', 'opaque', 'fn', 'arr', 'cls'):
                    continue
                ex.havoc_field(cls + '.' + n, t, None)
        for k in self.PTRS:
            ex.ptr_wf(ex.harr(k, I))
        for n, s in self.GHOSTS:
            ex.gset(n, ex.fresh('g!' + n, s))

    def on_lock(self, ex, key, ref, mode, mt):
        for l in ex.st.locks:
            if l is not None and l[0] == key and mt not in ('recursive_mutex', 'recursive_timed_mutex'):
                if l[2] == 'shared' and mode == 'shared':
                    continue
                ex.oblige('C20', 'no lock is taken that is already held (%s)' % key.split('.')[-1], l[1] != ref)
        if key == 'raft_server.lock_' and ref.eq(self.srv) and not self.held(ex):
            self.take_over(ex)

    def take_over(self, ex):
        self.havoc_shared(ex)
        self.state_wf(ex)
        for tag, lab, frm in self.inv(ex):
            ex.assume(frm)
        self.reset_op(ex)
        if getattr(self, 'on_taken', None):
            self.on_taken(ex)
        ex.st.ghost['$old'] = None
        ex.st.ghost['$old'] = ex.st.copy()
        ex.st.ghost['$taken'] = True

    def on_unlock(self, ex, key, ref):
        if key == 'raft_server.lock_' and ref.eq(self.srv) and not self.held(ex):
            self.release(ex)

    def release(self, ex):
        """the server lock is given back: the invariant and the two-state properties"""
        old = ex.st.ghost.get('$old')
        for tag, lab, frm in self.inv(ex):
            ex.oblige(tag, 'invariant: ' + lab, frm, assume=False)
        if old is not None:
            for tag, lab, frm in self.two_state(ex, old):
                ex.oblige(tag, lab, frm, assume=False)

    def msg(self, ex):
        return ex.st.ghost.get('$msg') or {}

    def joined(self, ex, old):
        """this operation accepted an invitation to join a cluster"""
        if self.msg(ex).get('type') == 'join_cluster_request':
            return z3.And(z3.Not(self.f(ex, 'catching_up_', old)), self.f(ex, 'catching_up_'))
        return z3.BoolVal(False)

    def two_state(self, ex, old):
        g, o = ex.st.ghost, old.ghost
        j = self.joined(ex, old)
        out = []
        i, k = z3.Ints('i!t k!t')
        T0, T1 = self.term(ex, old), self.term(ex)
        out.append(('C01', 'the term does not decrease', z3.Or(T1 >= T0, j)))
        out.append(('C02', 'a vote given is kept for the rest of the term', z3.Or(
            T1 > T0, z3.And(T1 == T0, z3.Or(self.vote(ex, old) == -1, self.vote(ex) == self.vote(ex, old))), j, T1 < T0)))
        out.append(('C09', 'the commit index does not decrease', z3.Or(self.f(ex, 'quick_commit_idx_') >= self.f(ex, 'quick_commit_idx_', old), j)))
        out.append(('C11', 'the applied index does not decrease', z3.Or(self.f(ex, 'sm_commit_index_') >= self.f(ex, 'sm_commit_index_', old), j)))
        lead = z3.And(self.role(ex, old) == LEADER, self.role(ex) == LEADER)
        same = ForAll([i], z3.Implies(z3.And(i >= g['lstart'], i < o['lnext']), z3.And(
            *[z3.Select(g[a], i) == z3.Select(o[a], i) for a in ('lterm', 'ltype', 'ldata')])))
        out.append(('C06', 'a leader keeps every entry of its log', z3.Implies(lead, z3.And(g['lnext'] >= o['lnext'], same))))
        out.append(('C06', 'entries added by a leader carry its term', z3.Implies(lead, ForAll([i], z3.Implies(
            z3.And(i >= o['lnext'], i < g['lnext']), z3.Select(g['lterm'], i) == T1)))))
        out.append(('C26', 'every entry added is announced before the operation ends', g['owe'] == 0))
        out.append(('C26', 'nothing is rolled back that stays in the log', ForAll([i], z3.Not(z3.Select(g['rb'], i)))))
        return out

    # ------------------------------------------------------------ buffers (opaque contents)
    def bf(self, ex, n, r):
        return ex.load(LField('buffer#' + n, r, U64))

    def bset(self, ex, n, r, v):
        ex.store(LField('buffer#' + n, r, U64), v)

    def new_buffer(self, ex, size, data, pos=0):
        r = ex.new_ref()
        self.bset(ex, 'size', r, size)
        self.bset(ex, 'pos', r, z3.IntVal(pos))
        ex.store(LField('buffer#data', r, T('str')), data)
        return r

    def bdata(self, ex, r):
        return ex.load(LField('buffer#data', r, T('str')))

    def m_buffer(self, ex, name, obj, args, n):
        r = obj.ref
        if name == 'size':
            return self.bf(ex, 'size', r)
        if name == 'pos':
            if not args:
                return self.bf(ex, 'pos', r)
            p = ex.scal(ex.ev(args[0]))
            self.bset(ex, 'pos', r, p)
            return None
        if name == 'get_int':
            p = self.bf(ex, 'pos', r)
            if not ex.branch(p + 4 <= self.bf(ex, 'size', r)):
                raise CThrow('overflow_error')
            self.bset(ex, 'pos', r, simp(p + 4))
            v = intAt(self.bdata(ex, r), p)
            ex.assume_range(v, INT32)
            return v
        if name == 'put':
            t = ex.ty(args[0])
            v = ex.rv(ex.ev(args[0]))
            p = self.bf(ex, 'pos', r)
            d0 = self.bdata(ex, r)
            d = ex.fresh('data')
            if t.k == 'int' and t.a == 32:
                ex.assume(intAt(d, p) == v)
                ex.store(LField('buffer#data', r, T('str')), d)
                self.bset(ex, 'pos', r, simp(p + 4))
                return None
            ex.store(LField('buffer#data', r, T('str')), d)
            ex.havoc_field('buffer#pos', U64, r)
            return None
        if name == 'data':
            return ex.fresh('dataptr')
        return NotImplemented

    def ser_conf(self, ex, c):
        """the content a cluster_config serialises to"""
        d = ex.fresh('confdata')
        sv = ex.get('cluster_config.servers_', c)
        j = z3.Int('j!sc')
        e = z3.Select(sv.arr, j)
        ids = ex.harr('srv_config.id_', I)
        eps = ex.harr('srv_config.endpoint_', I)
        ex.assume(z3.And(cfI(d) == ex.get('cluster_config.log_idx_', c), cfP(d) == ex.get('cluster_config.prev_log_idx_', c), cfN(d) == sv.len))
        ex.assume(ForAll([j], z3.Implies(z3.And(j >= 0, j < sv.len), z3.And(cfId(d, j) == z3.Select(ids, e), cfEp(d, j) == z3.Select(eps, e))),
                         patterns=[cfId(d, j), z3.Select(sv.arr, j)]))
        return d

    def de_conf(self, ex, d):
        c = ex.new_ref()
        for fn, fl in ((cfI, 'log_idx_'), (cfP, 'prev_log_idx_')):
            v = fn(d)
            ex.assume_range(v, U64)
            ex.put('cluster_config.' + fl, c, v)
        a0 = ex.st.alloc
        ex.bump_alloc()
        arr = ex.fresh('srvs', AI)
        j = z3.Int('j!dc')
        e = z3.Select(arr, j)
        ex.assume(z3.And(cfN(d) >= 0, cfN(d) < 2 ** 20))
        ex.assume(ForAll([j], z3.And(e >= a0, e < ex.st.alloc, z3.Select(ex.harr('srv_config.id_', I), e) == cfId(d, j),
                                     z3.Select(ex.harr('srv_config.endpoint_', I), e) == cfEp(d, j), cfId(d, j) >= -2 ** 31, cfId(d, j) < 2 ** 31),
                         patterns=[z3.Select(arr, j), cfId(d, j)]))
        t = ex.field('cluster_config.servers_')
        ex.put('cluster_config.servers_', c, VVec(cfN(d), arr, t.a))
        return c

    def function_model(self, ex, name, f, args, n):
        q = f.qual if f is not None else None
        if q == 'buffer::alloc':
            sz = ex.scal(ex.ev(args[0]))
            return self.new_buffer(ex, sz, ex.fresh('data'))
        if q == 'buffer::copy':
            b = ex.scal(ex.ev(args[0]))
            return self.new_buffer(ex, self.bf(ex, 'size', b), self.bdata(ex, b))
        if name == 'deserialize' and q in ('cluster_config::deserialize', 'srv_config::deserialize', 'snapshot_sync_req::deserialize', 'snapshot::deserialize'):
            b = ex.scal(ex.ev(args[0]))
            p = self.bf(ex, 'pos', b)
            d = self.bdata(ex, b)
            if not ex.branch(p == 0):
                d = ex.fresh('garbage')
            self.bset(ex, 'pos', b, self.bf(ex, 'size', b))
            if q == 'cluster_config::deserialize':
                return self.de_conf(ex, d)
            if q == 'srv_config::deserialize':
                r = ex.new_ref()
                ex.assume_range(scId(d), INT32)
                ex.put('srv_config.id_', r, scId(d))
                ex.put('srv_config.endpoint_', r, scEp(d))
                return r
            if q == 'snapshot_sync_req::deserialize':
                s = ex.new_ref()
                for fn, fl in ((ssIdx, 'last_log_idx_'), (ssTerm, 'last_log_term_'), (ssSize, 'size_')):
                    ex.assume(z3.And(fn(d) >= 0, fn(d) < MAX))
                    ex.put('snapshot.' + fl, s, fn(d))
                c = self.de_conf(ex, ssConf(d))
                # received from a member that holds the invariant of C24
                ex.assume(ex.get('cluster_config.log_idx_', c) <= ssIdx(d))
                ex.put('snapshot.last_config_', s, c)
                r = ex.new_ref()
                ex.put('snapshot_sync_req.snapshot_', r, s)
                ex.assume(z3.And(ssOff(d) >= 0, ssOff(d) < MAX, ssDSz(d) >= 0, ssDSz(d) < 2 ** 31))
                ex.put('snapshot_sync_req.offset_', r, ssOff(d))
                ex.put('snapshot_sync_req.data_', r, self.new_buffer(ex, ssDSz(d), ssData(d)))
                ex.put('snapshot_sync_req.done_', r, ssDone(d))
                return r
            return NotImplemented
        if name in ('exit', '_exit', 'abort'):
            raise SysExit()
        return NotImplemented

    def ctor_model(self, ex, cls, obj, vals):
        if cls.startswith('async_result') or cls.startswith('timer_task') or cls.startswith('std::'):
            return True
        if cls == 'peer' and isinstance(obj, Obj):
            g = ex.st.ghost
            ex.gset('outst', z3.Store(g['outst'], obj.ref, z3.BoolVal(False)))
            ex.gset('pconf', z3.Store(g['pconf'], obj.ref, z3.IntVal(0)))
        return False

    def merge_call(self, ex, f):
        return f.cls in ('raft_server', 'peer', 'prevote_state', 'cluster_config') and ex.branchy(f)

    def opaque_fn(self, ex, f):
        return False

    # ------------------------------------------------------------ interfaces
    def method_model(self, ex, cls, name, obj, args, n, f):
        if cls == 'buffer':
            return self.m_buffer(ex, name, obj, args, n)
        if cls == 'cluster_config' and name == 'serialize':
            d = self.ser_conf(ex, obj.ref)
            sz = ex.fresh('size')
            ex.assume(z3.And(sz >= 20, sz < 2 ** 31))
            return self.new_buffer(ex, sz, d)
        if cls == 'srv_config' and name == 'serialize':
            d = ex.fresh('srvdata')
            ex.assume(z3.And(scId(d) == ex.get('srv_config.id_', obj.ref), scEp(d) == ex.get('srv_config.endpoint_', obj.ref)))
            sz = ex.fresh('size')
            ex.assume(z3.And(sz >= 5, sz < 2 ** 31))
            return self.new_buffer(ex, sz, d)
        if cls == 'snapshot_sync_req' and name == 'serialize':
            r = obj.ref
            d = ex.fresh('syncdata')
            s = ex.get('snapshot_sync_req.snapshot_', r)
            b = ex.get('snapshot_sync_req.data_', r)
            ex.assume(z3.And(ssIdx(d) == ex.get('snapshot.last_log_idx_', s), ssTerm(d) == ex.get('snapshot.last_log_term_', s),
                             ssSize(d) == ex.get('snapshot.size_', s), ssOff(d) == ex.get('snapshot_sync_req.offset_', r),
                             ssData(d) == self.bdata(ex, b), ssDSz(d) == self.bf(ex, 'size', b) - self.bf(ex, 'pos', b),
                             ssDone(d) == ex.get('snapshot_sync_req.done_', r)))
            sz = ex.fresh('size')
            ex.assume(z3.And(sz >= 5, sz < 2 ** 31))
            return self.new_buffer(ex, sz, d)
        h = getattr(self, 'i_%s_%s' % (cls.replace('::', '_'), name), None)
        if h is not None:
            ex.used_models.add('contract of %s::%s' % (cls, name))
            return h(ex, obj, args, n)
        if cls.startswith('async_result'):
            for a in args:
                ex.arg(a)
            if name == 'set_result' and hasattr(self, 'on_set_result'):
                return self.on_set_result(ex, obj, args)
            t = ex.ty(n)
            return ex.fresh_val(t, 'ar') if t.k not in ('void',) else None
        return NotImplemented

    # state manager
    def i_state_mgr_save_state(self, ex, obj, args, n):
        o = ex.ev(args[0])
        t, v = ex.get('srv_state.term_', ex.scal(o)), ex.get('srv_state.voted_for_', ex.scal(o))
        g = ex.st.ghost
        j = self.msg(ex).get('type') == 'join_cluster_request'
        ex.oblige('C01', 'a saved term is never replaced by an older one', z3.BoolVal(True) if j else t >= g['PT'])
        ex.oblige('C02', 'a saved vote is never replaced by another one of the same term', z3.BoolVal(True) if j else z3.Or(
            t > g['PT'], z3.And(t == g['PT'], z3.Or(g['PV'] == -1, g['PV'] == v)), t < g['PT']))
        ex.gset('PT', t)
        ex.gset('PV', v)
        return None

    def i_state_mgr_save_config(self, ex, obj, args, n):
        c = ex.scal(ex.ev(args[0]))
        ex.gset('cfgidx', ex.get('cluster_config.log_idx_', c))
        ex.st.ghost['$saved'] = c
        ex.gset('cfgset', self.idset(ex, c))
        return None

    def idset(self, ex, c):
        """the set of ids a configuration names"""
        sv = ex.get('cluster_config.servers_', c)
        s = ex.fresh('ids', AB)
        k, j = z3.Ints('k!id j!id')
        ids = ex.harr('srv_config.id_', I)
        w = z3.Function('idwit!%d' % ex.st.nf, I, I)
        ex.assume(ForAll([k], z3.Implies(z3.Select(s, k), z3.And(w(k) >= 0, w(k) < sv.len, z3.Select(ids, z3.Select(sv.arr, w(k))) == k)),
                         patterns=[z3.Select(s, k)]))
        ex.assume(ForAll([j], z3.Implies(z3.And(j >= 0, j < sv.len), z3.Select(s, z3.Select(ids, z3.Select(sv.arr, j)))),
                         patterns=[z3.Select(sv.arr, j)]))
        return s

    def i_state_mgr_system_exit(self, ex, obj, args, n):
        for a in args:
            ex.ev(a)
        self.on_exit(ex)
        raise SysExit()

    def on_exit(self, ex):
        pass

    def i_state_mgr_server_id(self, ex, obj, args, n):
        return ex.fresh_val(INT32, 'id')

    def i_state_mgr_read_state(self, ex, obj, args, n):
        r = ex.fresh_val(ex.ty(n), 'state')
        return r

    # log store
    def i_log_store_next_slot(self, ex, obj, args, n):
        return self.g(ex, 'lnext')

    def i_log_store_start_index(self, ex, obj, args, n):
        return self.g(ex, 'lstart')

    def mk_entry(self, ex, term, typ, data):
        """a log entry object handed out by the store"""
        e = ex.new_ref()
        ex.put('log_entry.term_', e, term)
        ex.put('log_entry.value_type_', e, typ)
        b = self.new_buffer(ex, self.dsz(ex, data), data)
        ex.havoc_field('buffer#pos', U64, b)
        ex.put('log_entry.buff_', e, b)
        return e

    def dsz(self, ex, d):
        s = z3.Function('data_size', I, I)(d)
        ex.assume_once(z3.And(s >= 0, s < 2 ** 31))
        return s

    def in_log(self, ex, i):
        if self.msg(ex).get('type') != 'append_entries_request':
            return
        ex.oblige('C05', 'the log store is asked only for entries it holds', z3.And(i >= self.g(ex, 'lstart'), i < self.g(ex, 'lnext')))

    def i_log_store_entry_at(self, ex, obj, args, n):
        i = ex.scal(ex.ev(args[0]))
        self.in_log(ex, i)
        g = ex.st.ghost
        return self.mk_entry(ex, z3.Select(g['lterm'], i), z3.Select(g['ltype'], i), z3.Select(g['ldata'], i))

    def i_log_store_term_at(self, ex, obj, args, n):
        i = ex.scal(ex.ev(args[0]))
        self.in_log(ex, i)
        v = z3.Select(self.g(ex, 'lterm'), i)
        ex.assume_range(v, U64)
        return v

    def i_log_store_last_entry(self, ex, obj, args, n):
        g = ex.st.ghost
        i = simp(g['lnext'] - 1)
        have = i >= g['lstart']
        return self.mk_entry(ex, z3.If(have, z3.Select(g['lterm'], i), z3.IntVal(0)), z3.If(have, z3.Select(g['ltype'], i), z3.IntVal(APP)),
                             z3.If(have, z3.Select(g['ldata'], i), ex.fresh('dummy')))

    def ent(self, ex, e):
        """(term, type, data) of a log entry object"""
        b = ex.get('log_entry.buff_', e)
        return ex.get('log_entry.term_', e), ex.get('log_entry.value_type_', e), self.bdata(ex, b)

    def log_write(self, ex, i, e, what):
        g = ex.st.ghost
        t, ty, d = self.ent(ex, e)
        self.log_changed(ex, what)
        ex.oblige('C26', 'an added entry is announced before the next change of the log', g['owe'] == 0)
        role = self.role(ex)
        ex.oblige('C06', 'a leader stamps the entries it adds with its term', z3.Implies(role == LEADER, t == self.term(ex)))
        if what == 'write_at':
            ex.oblige('C06', 'a leader does not overwrite its log', role != LEADER)
            ex.oblige('C05', 'entries are overwritten only up to the end of the log', z3.And(i >= g['lstart'], i <= g['lnext']))
            k = z3.Int('k!rb')
            ex.oblige('C26', 'every application entry that an overwrite removes was rolled back before', ForAll([k], z3.Implies(
                z3.And(k >= i, k < g['lnext'], z3.Select(g['ltype'], k) == APP), z3.Select(g['rb'], k))))
            ex.oblige('C26', 'only removed entries were rolled back', ForAll([k], z3.Implies(z3.Select(g['rb'], k), z3.And(k >= i, k < g['lnext']))))
            ex.gset('rb', z3.K(I, z3.BoolVal(False)))
        self.on_conf_write(ex, i, e, t, ty, d)
        ex.gset('lterm', z3.Store(g['lterm'], i, t))
        ex.gset('ltype', z3.Store(g['ltype'], i, ty))
        ex.gset('ldata', z3.Store(g['ldata'], i, d))
        ex.gset('wlo', z3.If(i < g['wlo'], i, g['wlo']))
        ex.gset('lnext', simp(i + 1))
        ex.gset('owe', z3.If(ty == APP, i, z3.IntVal(0)))

    def log_changed(self, ex, what):
        ex.oblige('C20', 'the log changes only under the server lock', z3.BoolVal(self.held(ex)))

    def on_conf_write(self, ex, i, e, t, ty, d):
        """C13: a membership entry is added by a leader only, one at a time"""
        g = ex.st.ghost
        lead = self.role(ex) == LEADER
        if self.msg(ex).get('type') == 'append_entries_request':
            return            # replicated from the leader
        isconf = ty == CONF
        k = z3.Int('k!cw')
        ex.oblige('C13', 'membership entries are added by a leader', z3.Implies(isconf, lead))
        first = cfP(d) == 0
        ex.oblige('C13', 'a membership entry is added only when no earlier one is uncommitted', z3.Implies(isconf, z3.Or(
            z3.And(self.f(ex, 'catching_up_')),
            ForAll([k], z3.Implies(z3.And(k > self.f(ex, 'quick_commit_idx_'), k < g['lnext'], k >= g['lstart']), z3.Select(g['ltype'], k) != CONF)))))
        ex.oblige('C13', 'a membership entry carries its own log index', z3.Implies(isconf, cfI(d) == i))
        cfg = self.f(ex, 'config_')
        sv = ex.get('cluster_config.servers_', cfg)
        ids = ex.harr('srv_config.id_', I)
        el = lambda q: z3.Select(ids, z3.Select(sv.arr, q))
        ini = self.initial_conf(ex, d)
        ex.oblige('C13', 'a membership entry is linked to the membership before it', z3.Implies(z3.And(isconf, z3.Not(ini)), cfP(d) == ex.get('cluster_config.log_idx_', cfg)))
        j, x, y = z3.Ints('j!cw x!cw y!cw')
        added = z3.And(cfN(d) == sv.len + 1, ForAll([j], z3.Implies(z3.And(j >= 0, j < sv.len), cfId(d, j) == el(j))),
                       ForAll([j], z3.Implies(z3.And(j >= 0, j < sv.len), el(j) != cfId(d, sv.len))))
        kind = ex.st.ghost.get('$confkind')
        if kind is None:
            ex.oblige('C13', 'no membership entry is added by this operation', z3.Implies(isconf, ini))
        elif kind[0] == 'add':
            ex.oblige('C13', 'a new membership is the current one plus exactly one new server', z3.Implies(z3.And(isconf, z3.Not(ini)), z3.Or(added, kind[1](ex, d, sv, el))))
        else:
            ex.oblige('C13', 'a new membership is the current one without exactly one server', z3.Implies(z3.And(isconf, z3.Not(ini)), kind[1](ex, d, sv, el)))

    def initial_conf(self, ex, d):
        """the first leader records the initial membership: the configuration in force had index 0 when the operation began"""
        old = ex.st.ghost.get('$old')
        if old is None:
            return z3.BoolVal(False)
        cfg = self.f(ex, 'config_', old)
        return z3.And(self.at(ex, old, lambda: ex.get('cluster_config.log_idx_', cfg)) == 0, self.role(ex, old) != LEADER, z3.Not(self.f(ex, 'config_changing_', old)))

    def i_log_store_append(self, ex, obj, args, n):
        e = ex.scal(ex.rv(ex.ev(args[0])))
        i = self.g(ex, 'lnext')
        self.log_write(ex, i, e, 'append')
        return i

    def i_log_store_write_at(self, ex, obj, args, n):
        i = ex.scal(ex.ev(args[0]))
        e = ex.scal(ex.rv(ex.ev(args[1])))
        self.log_write(ex, i, e, 'write_at')
        return None

    def i_log_store_apply_pack(self, ex, obj, args, n):
        i = ex.scal(ex.ev(args[0]))
        ex.ev(args[1])
        g = ex.st.ghost
        self.log_changed(ex, 'apply_pack')
        ex.oblige('C06', 'a leader does not overwrite its log', self.role(ex) != LEADER)
        ex.oblige('C06', 'packs are taken only while joining', self.f(ex, 'catching_up_'))
        ex.oblige('C26', 'an added entry is announced before the next change of the log', g['owe'] == 0)
        k = z3.Int('k!ap')
        for a in ('lterm', 'ltype', 'ldata'):
            na = ex.fresh('g!' + a, AI)
            ex.assume(ForAll([k], z3.Implies(k < i, z3.Select(na, k) == z3.Select(g[a], k)), patterns=[z3.Select(na, k)]))
            ex.gset(a, na)
        nn = ex.fresh('g!lnext')
        ex.assume(z3.And(nn >= i, nn < MAX))
        ex.gset('lnext', nn)
        ex.gset('lstart', z3.If(i < g['lstart'], i, g['lstart']))
        ex.assume(ex.st.ghost['lstart'] >= 1)
        ex.gset('wlo', z3.If(i < g['wlo'], i, g['wlo']))
        return None

    def i_log_store_pack(self, ex, obj, args, n):
        i, c = ex.scal(ex.ev(args[0])), ex.scal(ex.ev(args[1]))
        return self.new_buffer(ex, ex.fresh_val(INT32, 'packsize'), ex.fresh('pack'))

    def i_log_store_compact(self, ex, obj, args, n):
        i = ex.scal(ex.ev(args[0]))
        self.on_compact(ex, i)
        ok = ex.fresh('compacted', B)
        if ex.branch(ok):
            g = ex.st.ghost
            self.log_changed(ex, 'compact')
            ls = z3.If(i + 1 > g['lstart'], i + 1, g['lstart'])
            ex.gset('lstart', simp(ls))
            ex.gset('lnext', simp(z3.If(g['lnext'] > i + 1, g['lnext'], i + 1)))
        return ok

    def on_compact(self, ex, i):
        pass

    def i_log_store_log_entries(self, ex, obj, args, n):
        a, b = ex.scal(ex.ev(args[0])), ex.scal(ex.ev(args[1]))
        g = ex.st.ghost
        ex.oblige('C05', 'the log store is asked only for entries it holds', z3.And(a >= g['lstart'], b <= g['lnext']))
        t = ex.ty(n)
        if not ex.branch(a < b):
            return z3.IntVal(0)
        # fresh entry objects
        r = ex.new_ref()
        a0 = ex.st.alloc
        ex.bump_alloc()
        arr = ex.fresh('entries', AI)
        j = z3.Int('j!le')
        e = z3.Select(arr, j)
        bu = z3.Select(ex.harr('log_entry.buff_', I), e)
        ex.assume(ForAll([j], z3.And(e >= a0, e < ex.st.alloc), patterns=[z3.Select(arr, j)]))
        ex.assume(ForAll([j], z3.Implies(z3.And(j >= 0, j < b - a), z3.And(
            z3.Select(ex.harr('log_entry.term_', I), e) == z3.Select(g['lterm'], a + j),
            z3.Select(ex.harr('log_entry.value_type_', I), e) == z3.Select(g['ltype'], a + j),
            bu >= a0, bu < ex.st.alloc, z3.Select(ex.harr('buffer#data', I), bu) == z3.Select(g['ldata'], a + j))), patterns=[z3.Select(arr, j)]))
        vt = t.a if t.k == 'ptr' else t
        ex.store(ex.box(vt, r), VVec(simp(b - a), arr, vt.a))
        return r

    # state machine
    def sm_args(self, ex, args):
        i = ex.scal(ex.ev(args[0]))
        b = ex.scal(ex.ev(args[1]))
        for a in args[2:]:
            try:
                ex.ev(a)
            except Unsupported:
                pass
        return i, self.bdata(ex, b)

    def i_state_machine_pre_commit(self, ex, obj, args, n):
        i, d = self.sm_args(ex, args)
        g = ex.st.ghost
        ex.oblige('C26', 'an entry is announced once, when it has just been added to the log', z3.And(g['owe'] == i, i < g['lnext'], i >= 1))
        ex.oblige('C26', 'the announced data are those in the log', d == z3.Select(g['ldata'], i))
        ex.gset('owe', z3.IntVal(0))
        return None

    def i_state_machine_rollback(self, ex, obj, args, n):
        i, d = self.sm_args(ex, args)
        g = ex.st.ghost
        ex.oblige('C26', 'an application entry of the log is rolled back, once', z3.And(
            i >= g['lstart'], i < g['lnext'], z3.Select(g['ltype'], i) == APP, z3.Not(z3.Select(g['rb'], i))))
        ex.oblige('C26', 'the data rolled back are those in the log', d == z3.Select(g['ldata'], i))
        ex.gset('rb', z3.Store(g['rb'], i, z3.BoolVal(True)))
        return None

    def i_state_machine_commit(self, ex, obj, args, n):
        i, d = self.sm_args(ex, args)
        self.on_sm_commit(ex, i, d)
        return None

    def on_sm_commit(self, ex, i, d):
        ex.oblige('C10', 'entries are applied by the background committer only', False)

    def i_state_machine_last_commit_index(self, ex, obj, args, n):
        return ex.fresh_val(U64, 'lastcommit')

    def i_state_machine_last_snapshot(self, ex, obj, args, n):
        # the snapshot the state machine holds is one it created or applied: its term is that of the log (C24, C11), its membership not newer (C24)
        lc = lambda: self.sf(ex, 'last_config_', s)
        s = ex.fresh_val(ex.ty(n), 'smsnap')
        g = ex.st.ghost
        ex.assume(z3.Implies(s != 0, z3.And(self.sf(ex, 'last_log_term_', s) == z3.Select(g['lterm'], self.sf(ex, 'last_log_idx_', s)),
                                            self.sf(ex, 'last_log_idx_', s) < g['lnext'], lc() > 0, lc() < ex.st.alloc,
                                            ex.get('cluster_config.log_idx_', lc()) <= self.sf(ex, 'last_log_idx_', s))))
        return s

    def i_state_machine_save_snapshot_data(self, ex, obj, args, n):
        s = ex.scal(ex.ev(args[0]))
        o = ex.scal(ex.ev(args[1]))
        b = ex.scal(ex.ev(args[2]))
        self.on_save_chunk(ex, s, o, b)
        if ex.st.trydepth > 0:
            if ex.choose(2) == 1:
                raise CThrow('std::exception')
        return None

    def on_save_chunk(self, ex, s, o, b):
        m = self.msg(ex)
        if m.get('type') != 'install_snapshot_request':
            ex.oblige('C11', 'snapshot data are stored only on a snapshot request', False)
            return
        d = m['sync']
        ex.oblige('C11', 'each chunk is stored with its own snapshot, offset and data', z3.And(
            self.sf(ex, 'last_log_idx_', s) == ssIdx(d), o == ssOff(d), self.bdata(ex, b) == ssData(d), self.bf(ex, 'size', b) == ssDSz(d)))
        ex.oblige('C11', 'a chunk is stored only from a leader of a term not older than the server\'s, or while joining',
                  z3.Or(m['term'] >= self.term(ex), self.f(ex, 'catching_up_')))
        ex.oblige('C11', 'a chunk is stored only of a snapshot newer than what is applied', ssIdx(d) > self.f(ex, 'sm_commit_index_'))
        ex.gset('chunk', z3.IntVal(1))

    def i_state_machine_apply_snapshot(self, ex, obj, args, n):
        s = ex.scal(ex.ev(args[0]))
        m = self.msg(ex)
        if m.get('type') != 'install_snapshot_request':
            ex.oblige('C11', 'a snapshot is applied only on a snapshot request', False)
            return ex.fresh('applied', B)
        d = m['sync']
        ex.oblige('C11', 'a snapshot is applied only as a follower', self.role(ex) == FOLLOWER)
        ex.oblige('C11', 'a snapshot is applied only after its last chunk was stored', z3.And(ssDone(d), ex.st.ghost.get('chunk', z3.IntVal(0)) == 1))
        ex.oblige('C11', 'the snapshot applied is the one received, newer than what is applied', z3.And(
            self.sf(ex, 'last_log_idx_', s) == ssIdx(d), self.sf(ex, 'last_log_term_', s) == ssTerm(d), ssIdx(d) > self.f(ex, 'sm_commit_index_')))
        ex.oblige('C11', 'a snapshot is applied only from a leader of a term not older than the server\'s, or while joining',
                  z3.Or(m['term'] >= self.term(ex), self.f(ex, 'catching_up_')))
        ok = ex.fresh('applied', B)
        if ex.branch(ok):
            g = ex.st.ghost
            # the snapshot replaces the log up to its index
            ex.gset('lterm', z3.Store(g['lterm'], ssIdx(d), ssTerm(d)))
            ex.gset('applied', z3.IntVal(1))
        return ok

    def i_state_machine_read_snapshot_data(self, ex, obj, args, n):
        s, o = ex.scal(ex.ev(args[0])), ex.scal(ex.ev(args[1]))
        b = ex.scal(ex.ev(args[2]))
        d = ex.fresh('chunk')
        ex.store(LField('buffer#data', b, T('str')), d)
        ex.st.ghost['$chunk'] = (s, o, b, d)
        r = ex.fresh_val(INT32, 'rd')
        ex.assume(z3.And(r >= 0, r <= self.bf(ex, 'size', b)))
        return r

    def i_state_machine_create_snapshot(self, ex, obj, args, n):
        s = ex.scal(ex.ev(args[0]))
        ex.ev(args[1])
        self.on_create_snapshot(ex, s)
        if ex.st.trydepth > 0 and ex.choose(2) == 1:
            if '$thrown' in ex.st.ghost:
                ex.gset('$thrown', z3.IntVal(1))
            raise CThrow('std::exception')
        return None

    def on_create_snapshot(self, ex, s):
        pass

    # scheduler, events, rpc
    def i_delayed_task_scheduler_schedule(self, ex, obj, args, n):
        ex.ev(args[0])
        ex.scal(ex.ev(args[1]))
        ex.gset('nsched', ex.st.ghost['nsched'] + 1)
        self.on_schedule(ex, args)
        return None

    def on_schedule(self, ex, args):
        pass

    def i_delayed_task_scheduler_cancel(self, ex, obj, args, n):
        ex.ev(args[0])
        return None

    def i_raft_event_listener_on_event(self, ex, obj, args, n):
        for a in args:
            ex.ev(a)
        return None

    def i_rpc_client_factory_create_client(self, ex, obj, args, n):
        ex.ev(args[0])
        r = ex.new_ref()
        return r

    def i_rpc_client_send(self, ex, obj, args, n):
        r = ex.scal(ex.rv(ex.ev(args[0])))
        ex.ev(args[1])
        ex.nonnull(r)
        this = None
        for fr in reversed(ex.frames):
            if fr.func is not None and fr.func.cls == 'peer' and fr.this is not None:
                this = fr.this.ref
                break
        self.on_send(ex, r, this)
        return None

    def m(self, ex, fld, r):
        return ex.get(('msg_base.' if fld in ('term_', 'type_', 'src_', 'dst_') else 'req_msg.') + fld, r)

    def on_send(self, ex, r, p):
        g = ex.st.ghost
        ty = self.m(ex, 'type_', r)
        ex.gset('nsend', simp(g['nsend'] + 1))
        t = self.m(ex, 'term_', r)
        T_ = self.term(ex)
        locked = self.held(ex)
        own = p is not None          # sent to a member (requests forwarded for clients carry no term)
        if not own:
            return
        tyc = const_int(ty)
        if locked and not self.msg(ex).get('retry'):
            ex.oblige('C01', 'a message states the term in force, and that term has been saved', z3.And(t == T_, g['PT'] == T_))
        is_vote = ty == MT['vote_request']
        is_pre = ty == MT['prevote_request']
        is_app = ty == MT['append_entries_request']
        is_ins = ty == MT['install_snapshot_request']
        if tyc is None or tyc in (1, 18):
            ex.oblige('C02', 'a server asks for votes only after saving its own vote for that term', z3.Implies(is_vote, z3.And(
                g['PV'] == self.f(ex, 'id_'), g['PT'] == t)))
            li = simp(g['lnext'] - 1)
            ex.oblige('C03', 'vote and pre-vote requests state the true last log position', z3.Implies(z3.Or(is_vote, is_pre), z3.And(
                self.m(ex, 'last_log_idx_', r) == li, self.m(ex, 'last_log_term_', r) == z3.Select(g['lterm'], li))))
            ex.oblige('C04', 'votes are asked for as a candidate', z3.Implies(is_vote, self.role(ex) == CANDIDATE))
        if tyc is None or tyc == 3:
            self.on_append_sent(ex, r, p, is_app)
        if tyc is None or tyc == 16:
            self.on_chunk_sent(ex, r, p, is_ins)
        if tyc is None or tyc in (3, 16):
            m = self.peers(ex)
            dst = self.m(ex, 'dst_', r)
            memb = z3.And(z3.Select(m.dom, dst), z3.Select(m.val, dst) == p)
            ex.oblige('C23', 'no second replication request is started to a member with one outstanding',
                      z3.Implies(z3.And(z3.Or(is_app, is_ins), memb), z3.Not(z3.Select(g['outst'], p))))
            cond = z3.Or(is_app, is_ins) if tyc is None else z3.BoolVal(True)
            ex.gset('outst', z3.Store(g['outst'], p, simp(z3.Or(cond, z3.Select(g['outst'], p)))))
            ex.gset('sentc', z3.Store(g['sentc'], p, self.m(ex, 'commit_idx_', r)))

    def on_append_sent(self, ex, r, p, is_app):
        g = ex.st.ghost
        prev = self.m(ex, 'last_log_idx_', r)
        pt = self.m(ex, 'last_log_term_', r)
        es = ex.get('req_msg.log_entries_', r)
        imp = lambda c: c if is_true(simp(is_app)) else z3.Implies(is_app, c)
        ex.oblige('C07', 'append requests are sent by a leader only, stating its term and commit index', imp(z3.And(
            self.role(ex) == LEADER, self.m(ex, 'term_', r) == self.term(ex), self.m(ex, 'commit_idx_', r) == self.f(ex, 'quick_commit_idx_'))))
        ex.oblige('C07', 'the preceding entry named exists in the log with the term stated', imp(z3.And(
            prev < g['lnext'], prev >= g['lstart'] - 1, pt == z3.Select(g['lterm'], prev))))
        j = z3.Int('j!as')
        e = z3.Select(es.arr, j)
        ex.oblige('C07', 'the entries sent are those that follow in the log, in order and unchanged', imp(ForAll([j], z3.Implies(
            z3.And(j >= 0, j < es.len), z3.And(
                z3.Select(ex.harr('log_entry.term_', I), e) == z3.Select(g['lterm'], prev + 1 + j),
                z3.Select(ex.harr('log_entry.value_type_', I), e) == z3.Select(g['ltype'], prev + 1 + j),
                z3.Select(ex.harr('buffer#data', I), z3.Select(ex.harr('log_entry.buff_', I), e)) == z3.Select(g['ldata'], prev + 1 + j))))))
        mx = self.params(ex, 'max_append_size_')
        av = g['lnext'] - 1 - prev
        ex.oblige('C07', 'all available entries are sent, up to the batch size', imp(es.len == z3.If(av < mx, av, mx)))
        ex.oblige('C07', 'the request goes to the member it is addressed to', imp(self.m(ex, 'dst_', r) == z3.Select(
            ex.harr('srv_config.id_', I), z3.Select(ex.harr('peer.config_', I), p))))
        ex.oblige('C07', 'the request continues where the member is expected to be', imp(prev + 1 == self.pf(ex, 'next_log_idx_', p)))

    def on_chunk_sent(self, ex, r, p, is_ins):
        es = ex.get('req_msg.log_entries_', r)
        imp = lambda c: c if is_true(simp(is_ins)) else z3.Implies(is_ins, c)
        e0 = z3.Select(es.arr, 0)
        b = z3.Select(ex.harr('log_entry.buff_', I), e0)
        d = z3.Select(ex.harr('buffer#data', I), b)
        sc = self.pf(ex, 'snp_sync_ctx_', p)
        s = z3.Select(ex.harr('snapshot_sync_ctx.snapshot_', I), sc)
        off = z3.Select(ex.harr('snapshot_sync_ctx.offset_', I), sc)
        size = self.sf(ex, 'size_', s)
        blk = self.params(ex, 'snapshot_block_size_')
        blk = z3.If(blk == 0, z3.IntVal(4096), blk)
        ck = ex.st.ghost.get('$chunk')
        ex.oblige('C12', 'a snapshot request carries one chunk of the snapshot being transferred to that member', imp(z3.And(
            es.len == 1, sc != 0, z3.Select(ex.harr('log_entry.value_type_', I), e0) == SNPREQ, ssIdx(d) == self.sf(ex, 'last_log_idx_', s),
            ssTerm(d) == self.sf(ex, 'last_log_term_', s), ssSize(d) == size)))
        ex.oblige('C12', 'a chunk starts where the receiver confirmed', imp(ssOff(d) == off))
        ex.oblige('C12', 'a chunk is not empty, within the block size and the snapshot', imp(z3.And(
            ssDSz(d) >= 1, ssDSz(d) <= blk, ssOff(d) + ssDSz(d) <= size)))
        ex.oblige('C12', 'a chunk is flagged final exactly when it reaches the end', imp(ssDone(d) == (ssOff(d) + ssDSz(d) == size)))
        ex.oblige('C12', 'a chunk holds the data read from the snapshot at its offset', imp(
            z3.BoolVal(False) if ck is None else z3.And(ck[0] == s, ck[1] == ssOff(d), ck[3] == ssData(d))))
        if self.held(ex):
            m = self.peers(ex)
            ex.oblige('C12', 'snapshot requests state the leader\'s term', imp(self.m(ex, 'term_', r) == self.term(ex)))

    # ------------------------------------------------------------ monitors on fields
    def on_write(self, ex, l, v):
        k = l.key
        h = self.MON.get(k)
        if h is not None:
            h(self, ex, l, v)

    def mine(self, l):
        return l.ref.eq(self.srv)

    def w_lock(self, ex, l, v, what):
        if self.mine(l) or not l.key.startswith('raft_server.'):
            ex.oblige('C20', '%s changes only under the server lock' % what, z3.BoolVal(self.held(ex)))

    def w_role(self, ex, l, v):
        if not self.mine(l) or self.ctor:
            return
        self.w_lock(ex, l, v, 'the role')
        v = ex.scal(v)
        g = ex.st.ghost
        m = self.peers(ex)
        cv = const_int(v)
        if cv is None or cv == LEADER:
            ex.oblige('C04', 'leadership is assumed only with the votes of a strict majority of the members in this term',
                      z3.Implies(v == LEADER, 2 * g['vcard'] > m.size + 1))
            if cv == LEADER:
                # a new leadership begins: nothing is confirmed or outstanding in it
                ex.gset('pconf', z3.K(I, z3.IntVal(0)))
                ex.gset('outst', z3.K(I, z3.BoolVal(False)))
        if cv is None or cv == CANDIDATE:
            ex.oblige('C22', 'with pre-voting a follower becomes candidate only after a strict majority accepted its pre-vote, or alone',
                      z3.Implies(z3.And(v == CANDIDATE, self.params(ex, 'prevote_enabled_') if ex.field('raft_params.prevote_enabled_').k == 'bool' else self.params(ex, 'prevote_enabled_') != 0,
                                        self.role(ex) == FOLLOWER), z3.Or(m.size == 0, 2 * g['pvcard'] > m.size + 1)))
            if cv == CANDIDATE:
                ex.oblige('C01', 'a candidacy begins a new term', True)

    def w_term(self, ex, l, v):
        if self.ctor or not self.is_state(ex, l.ref):
            return
        self.w_lock(ex, l, v, 'the term')
        # votes belong to one term
        ex.gset('vset', z3.K(I, z3.BoolVal(False)))
        ex.gset('vcard', z3.IntVal(0))

    def is_state(self, ex, ref):
        return simp(ref).eq(simp(self.f(ex, 'state_'))) or ref.eq(self.f(ex, 'state_'))

    def w_vote(self, ex, l, v):
        if self.ctor or not self.is_state(ex, l.ref):
            return
        self.w_lock(ex, l, v, 'the vote')

    def w_voted(self, ex, l, v):
        if not self.mine(l) or self.ctor:
            return
        d = v.dom
        if z3.is_const_array(d):
            ex.gset('vset', z3.K(I, z3.BoolVal(False)))
            ex.gset('vcard', z3.IntVal(0))
            return
        if z3.is_store(d) and is_true(d.arg(2)):
            k = d.arg(1)
            g = ex.st.ghost
            m = self.msg(ex)
            own = z3.And(k == self.f(ex, 'id_'), g['PV'] == k, g['PT'] == self.term(ex))
            if m.get('type') == 'vote_response':
                pm = self.peers(ex)
                got = z3.And(k == m['src'], m['accepted'], m['term'] == self.term(ex), z3.Or(z3.Select(pm.dom, k), m['was']))
                own = z3.Or(own, got)
            new = z3.And(own, z3.Not(z3.Select(g['vset'], k)))
            ex.gset('vcard', simp(g['vcard'] + z3.If(new, z3.IntVal(1), z3.IntVal(0))))
            ex.gset('vset', z3.Store(g['vset'], k, z3.Or(own, z3.Select(g['vset'], k))))
            return
        ex.havoc_field('dummy', INT32, None)
        ex.gset('vset', z3.K(I, z3.BoolVal(False)))
        ex.gset('vcard', z3.IntVal(0))

    def w_pvoted(self, ex, l, v):
        d = v.dom
        g = ex.st.ghost
        if z3.is_store(d) and is_true(d.arg(2)):
            k = d.arg(1)
            m = self.msg(ex)
            own = k == self.f(ex, 'id_')
            if m.get('type') == 'prevote_response':
                pm = self.peers(ex)
                own = z3.Or(own, z3.And(k == m['src'], m['accepted'], z3.Select(pm.dom, k)))
            new = z3.And(own, z3.Not(z3.Select(g['pvset'], k)))
            ex.gset('pvcard', simp(g['pvcard'] + z3.If(new, z3.IntVal(1), z3.IntVal(0))))
            ex.gset('pvset', z3.Store(g['pvset'], k, z3.Or(own, z3.Select(g['pvset'], k))))
            return
        ex.gset('pvset', z3.K(I, z3.BoolVal(False)))
        ex.gset('pvcard', z3.IntVal(0))

    def w_quick(self, ex, l, v):
        if not self.mine(l) or self.ctor:
            return
        v = ex.scal(v)
        self.w_lock(ex, l, v, 'the commit index')
        g = ex.st.ghost
        m = self.peers(ex)
        role = self.role(ex)
        msg = self.msg(ex)
        ty = msg.get('type')
        q = self.f(ex, 'quick_commit_idx_')
        # leader
        n = simp(m.size + 1)
        sole = z3.And(m.size == 0, v < g['lnext'])
        cnt, lemmas = self.confirmed(ex, v)
        for f in lemmas:
            ex.assume(f)
        if not ex.st.sorts and not ex.implied(z3.Or(role != LEADER, sole, v <= q)):
            ex.taint('confirmed positions are not ranked by sorting')
        maj = z3.And(2 * cnt > n, v < g['lnext'], z3.Select(g['lterm'], v) == self.term(ex))
        ex.oblige('C08', 'a leader commits only what a strict majority confirmed in its leadership, in an entry of its own term',
                  z3.Implies(z3.And(role == LEADER, v > q), z3.Or(maj, sole)))
        # follower
        if ty == 'append_entries_request':
            lim = simp(msg['prev'] + msg['n'])
            okf = z3.And(v <= msg['commit'], v <= lim, msg['term'] == self.term(ex))
        elif ty == 'install_snapshot_request':
            okf = z3.And(v == ssIdx(msg['sync']), ex.st.ghost.get('applied', z3.IntVal(0)) == 1)
        elif ty == 'sync_log_request':
            okf = z3.And(self.f(ex, 'catching_up_'), v < g['lnext'])
        elif ty == 'join_cluster_request':
            okf = self.f(ex, 'catching_up_')
        else:
            okf = z3.BoolVal(False)
        ex.oblige('C09', 'a follower raises its commit index only to what an accepted append request verified, or an installed snapshot covers',
                  z3.Implies(z3.And(role != LEADER, v != q), okf))
        if ty != 'join_cluster_request':
            ex.oblige('C09', 'the commit index is never lowered', v >= q)

    def confirmed(self, ex, v):
        """number of members (the server included) whose logs are confirmed up to v, with counting lemmas"""
        g = ex.st.ghost
        m = self.peers(ex)
        n = simp(m.size + 1)
        A = ex.fresh('confirmed', AI)
        j = z3.Int('j!cf')
        pj = z3.Select(m.val, z3.Select(m.keys, j - 1))
        lem = [z3.Select(A, 0) == g['lnext'] - 1,
               ForAll([j], z3.Implies(z3.And(j >= 1, j < n), z3.Select(A, j) == z3.Select(g['pconf'], pj)), patterns=[z3.Select(A, j)])]
        A2 = ex.fresh('confirmed', AI)
        pj2 = z3.Select(m.val, z3.Select(m.keys, j))
        lem += [z3.Select(A2, m.size) == g['lnext'] - 1,
                ForAll([j], z3.Implies(z3.And(j >= 0, j < m.size), z3.Select(A2, j) == z3.Select(g['pconf'], pj2)), patterns=[z3.Select(A2, j)]),
                cge(A2, n, v) == cge(A, n, v)]
        for arr, ln in ex.st.sorts:
            for X in (A, A2):
                w = ex.fresh('w')
                # if every element of arr is at most the matching one of X, at least as many of X reach v
                lem.append(z3.Or(ln != n, z3.And(w >= 0, w < n, z3.Select(arr, w) > z3.Select(X, w)), cge(X, n, v) >= cge(arr, n, v)))
        return cge(A, n, v), lem

    def w_sm(self, ex, l, v):
        if not self.mine(l) or self.ctor:
            return
        self.on_sm_write(ex, l, ex.scal(v))

    def on_sm_write(self, ex, l, v):
        ty = self.msg(ex).get('type')
        if ty == 'join_cluster_request':
            return
        if ty == 'install_snapshot_request':
            ex.oblige('C11', 'the applied index moves to the snapshot, forward, after it was applied', z3.And(
                v == ssIdx(self.msg(ex)['sync']), ex.st.ghost.get('applied', z3.IntVal(0)) == 1, v >= self.f(ex, 'sm_commit_index_')))
            return
        ex.oblige('C10', 'only the committer and a snapshot move the applied index', v == self.f(ex, 'sm_commit_index_'))

    def w_peers(self, ex, l, v):
        if not self.mine(l) or self.ctor:
            return
        self.w_lock(ex, l, v, 'the member table')
        ex.oblige('C20', 'the member table changes only under its exclusive lock', z3.BoolVal(self.held(ex, 'raft_server.peers_lock_', True)))

    def w_config(self, ex, l, v):
        if not self.mine(l) or self.ctor:
            return
        self.w_lock(ex, l, v, 'the membership')
        if self.newids is not None:
            return      # the body of reconfigure: judged at its callers
        ty = self.msg(ex).get('type')
        old = self.f(ex, 'config_')
        nv = ex.scal(v)
        if ty not in ('join_cluster_request', 'install_snapshot_request'):
            ex.oblige('C14', 'an older membership never replaces a newer one',
                      ex.get('cluster_config.log_idx_', nv) >= ex.get('cluster_config.log_idx_', old))

    def w_matched(self, ex, l, v):
        pass

    MON = {'raft_server.role_': w_role, 'srv_state.term_': w_term, 'srv_state.voted_for_': w_vote, 'raft_server.voted_servers_': w_voted,
           'prevote_state.voted_servers_': w_pvoted, 'raft_server.quick_commit_idx_': w_quick, 'raft_server.sm_commit_index_': w_sm,
           'raft_server.peers_': w_peers, 'raft_server.config_': w_config}
    ctor = False

    def ghost_wf(self, ex, n):
        g = ex.st.ghost
        if n in ('lnext', 'lstart'):
            ex.assume(z3.And(g[n] >= 1, g[n] < MAX))

    # ------------------------------------------------------------ loops
    def loop_candidates(self, ex, s0, info):
        out = []
        mod = info['mod']
        i, j, k = z3.Ints('i!l j!l k!l')
        G = mod['ghost']
        g0 = s0.ghost
        H = lambda key, so=I: ex.harr(key, so)
        # per-operation log history
        logs = [a for a in ('lterm', 'ltype', 'ldata') if a in G]
        m = ex.st.ghost.get('$msg') or {}
        ints = info['ints']
        if logs:
            for a in logs:
                out.append(('%s: entries below the lowest write are unchanged' % a, lambda ex, a=a: ForAll([i], z3.Implies(
                    i < ex.st.ghost['wlo'], z3.Select(ex.st.ghost[a], i) == z3.Select(g0[a], i)), patterns=[z3.Select(ex.st.ghost[a], i)])))
                out.append(('%s: entries of the entry log are unchanged' % a, lambda ex, a=a: ForAll([i], z3.Implies(
                    i < g0['lnext'], z3.Select(ex.st.ghost[a], i) == z3.Select(g0[a], i)), patterns=[z3.Select(ex.st.ghost[a], i)])))
                out.append(('%s: entries below the writes of this loop are unchanged' % a, lambda ex, a=a: ForAll([i], z3.Implies(
                    z3.And(i < g0['lnext'], i < ex.st.ghost['wlo']), z3.Select(ex.st.ghost[a], i) == z3.Select(g0[a], i)), patterns=[z3.Select(ex.st.ghost[a], i)])))
            out.append(('writes of this loop begin at the end of the log', lambda ex: z3.Or(ex.st.ghost['wlo'] == g0['wlo'], ex.st.ghost['wlo'] == g0['lnext'])))
            for nm, v0, f in ints:
                if not nm.startswith('ghost'):
                    out.append(('writes of this loop begin at the entry value of %s or later' % nm, lambda ex, v0=v0: z3.Or(
                        ex.st.ghost['wlo'] == g0['wlo'], ex.st.ghost['wlo'] >= v0)))
                    out.append(('the first write of this loop is at the entry value of %s' % nm, lambda ex, v0=v0: z3.Or(
                        ex.st.ghost['wlo'] == g0['wlo'], ex.st.ghost['wlo'] == v0)))
                    out.append(('%s changes only with a first write' % nm, lambda ex, v0=v0, f=f: z3.Or(
                        ex.st.ghost['wlo'] != g0['wlo'], f(ex) == v0)))
            if m.get('entries') is not None:
                es, prev = m['entries'], m['prev']
                fld = {'lterm': lambda e: z3.Select(H('log_entry.term_'), e), 'ltype': lambda e: z3.Select(H('log_entry.value_type_'), e),
                       'ldata': lambda e: z3.Select(H('buffer#data'), z3.Select(H('log_entry.buff_'), e))}
                base = prev + 1 if m['type'] == 'append_entries_request' else None
                old = ex.st.ghost.get('$old')
                if base is None and old is not None:
                    base = old.ghost['lnext']
                for a in logs:
                    if base is None:
                        break
                    out.append(('%s: written entries are those of the request' % a, lambda ex, a=a: ForAll([i], z3.Implies(
                        z3.And(i >= ex.st.ghost['wlo'], i < ex.st.ghost['lnext']), z3.Select(ex.st.ghost[a], i) == fld[a](z3.Select(es.arr, i - base))),
                        patterns=[z3.Select(ex.st.ghost[a], i)])))
                if old is not None:
                    out.append(('without a write the log ends where it did', lambda ex: z3.Implies(ex.st.ghost['wlo'] == MAX * 2, ex.st.ghost['lnext'] == old.ghost['lnext'])))
                    out.append(('the first write is where the log ended', lambda ex: z3.Or(ex.st.ghost['wlo'] == MAX * 2, ex.st.ghost['wlo'] == old.ghost['lnext'])))
                if base is not None:
                    out.append(('writes stay within the request', lambda ex: z3.Or(ex.st.ghost['wlo'] == MAX * 2, z3.And(
                        ex.st.ghost['wlo'] >= base, ex.st.ghost['wlo'] < ex.st.ghost['lnext'], ex.st.ghost['lnext'] <= base + es.len))))
                    if m['type'] == 'client_request':
                        for nm, v0, f in ints:
                            out.append(('log end is %s past where it was' % nm, lambda ex, f=f: ex.st.ghost['lnext'] == base + f(ex)))
                    for nm, v0, f in ints:
                        out.append(('log end is at %s or where it was' % nm, lambda ex, f=f: z3.Or(
                            z3.And(ex.st.ghost['wlo'] == g0['wlo'], ex.st.ghost['lnext'] == g0['lnext']), ex.st.ghost['lnext'] == f(ex))))
                    out.append(('first write is at a mismatch or at the end', lambda ex: z3.Or(
                        ex.st.ghost['wlo'] == MAX * 2, ex.st.ghost['wlo'] >= old.ghost['lnext'],
                        z3.Select(old.ghost['lterm'], ex.st.ghost['wlo']) != z3.Select(H('log_entry.term_'), z3.Select(es.arr, ex.st.ghost['wlo'] - base)))) if old is not None else ('x', lambda ex: None))
            for a in ('lterm',):
                if a in logs:
                    out.append(('entries added in the loop carry the term', lambda ex: ForAll([i], z3.Implies(
                        z3.And(i >= g0['lnext'], i < ex.st.ghost['lnext']), z3.Select(ex.st.ghost['lterm'], i) == self.term(ex)))))
            if 'ltype' in logs:
                out.append(('entries added in the loop are application entries', lambda ex: ForAll([i], z3.Implies(
                    z3.And(i >= g0['lnext'], i < ex.st.ghost['lnext']), z3.Select(ex.st.ghost['ltype'], i) == APP))))
                out.append(('uncommitted membership entries keep the change pending', lambda ex: ForAll([i], z3.Implies(
                    z3.And(i > self.f(ex, 'quick_commit_idx_'), i < ex.st.ghost['lnext'], i >= ex.st.ghost['lstart'], z3.Select(ex.st.ghost['ltype'], i) == CONF),
                    z3.Or(self.f(ex, 'config_changing_'), self.f(ex, 'catching_up_'))), patterns=[z3.Select(ex.st.ghost['ltype'], i)])))
        elif m.get('entries') is not None and m['type'] == 'append_entries_request':
            es, prev = m['entries'], m['prev']
            for nm, v0, f in ints:
                out.append(('entries before %s agree' % nm, lambda ex, f=f: ForAll([i], z3.Implies(
                    z3.And(i > prev, i < f(ex), i >= ex.st.ghost['lstart']), z3.Select(ex.st.ghost['lterm'], i) == z3.Select(H('log_entry.term_'), z3.Select(es.arr, i - prev - 1))),
                    patterns=[z3.Select(ex.st.ghost['lterm'], i)])))
                out.append(('%s at most log end' % nm, lambda ex, f=f: f(ex) <= ex.st.ghost['lnext']))
        if 'rb' in G:
            for nm, v0, f in ints:
                out.append(('rolled back from %s up' % nm, lambda ex, f=f: ForAll([i], z3.Implies(
                    z3.And(i > f(ex), i < ex.st.ghost['lnext'], z3.Select(ex.st.ghost['ltype'], i) == APP), z3.Select(ex.st.ghost['rb'], i)),
                    patterns=[z3.Select(ex.st.ghost['rb'], i)])))
                out.append(('nothing rolled back up to %s' % nm, lambda ex, f=f: ForAll([i], z3.Implies(i <= f(ex), z3.Not(z3.Select(ex.st.ghost['rb'], i))),
                                                                                         patterns=[z3.Select(ex.st.ghost['rb'], i)])))
                out.append(('rolled back from entry to %s' % nm, lambda ex, f=f, v0=v0: ForAll([i], z3.Implies(
                    z3.And(i >= v0, i < f(ex), z3.Select(ex.st.ghost['ltype'], i) == APP), z3.Select(ex.st.ghost['rb'], i)),
                    patterns=[z3.Select(ex.st.ghost['rb'], i)])))
                out.append(('nothing rolled back from %s on' % nm, lambda ex, f=f: ForAll([i], z3.Implies(i >= f(ex), z3.Not(z3.Select(ex.st.ghost['rb'], i))),
                                                                                           patterns=[z3.Select(ex.st.ghost['rb'], i)])))
                out.append(('nothing rolled back below entry of %s' % nm, lambda ex, f=f, v0=v0: ForAll([i], z3.Implies(i < v0, z3.Not(z3.Select(ex.st.ghost['rb'], i))),
                                                                                                         patterns=[z3.Select(ex.st.ghost['rb'], i)])))
            out.append(('nothing beyond the log is rolled back', lambda ex: ForAll([i], z3.Implies(i >= ex.st.ghost['lnext'], z3.Not(z3.Select(ex.st.ghost['rb'], i))),
                                                                                   patterns=[z3.Select(ex.st.ghost['rb'], i)])))
            out.append(('nothing is rolled back', lambda ex: ForAll([i], z3.Not(z3.Select(ex.st.ghost['rb'], i)), patterns=[z3.Select(ex.st.ghost['rb'], i)])))
        # loops over the members
        out.extend(self.peer_loop(ex, s0, info))
        # scanning the log for membership entries
        if not logs:
            for nm, v0, f in ints:
                out.append(('no membership entry in [entry, %s)' % nm, lambda ex, f=f, v0=v0: ForAll([i], z3.Implies(
                    z3.And(i >= v0, i < f(ex)), z3.Select(ex.st.ghost['ltype'], i) != CONF), patterns=[z3.Select(ex.st.ghost['ltype'], i)])))
                out.append(('no membership entry in (%s, entry]' % nm, lambda ex, f=f, v0=v0: ForAll([i], z3.Implies(
                    z3.And(i <= v0, i > f(ex)), z3.Select(ex.st.ghost['ltype'], i) != CONF), patterns=[z3.Select(ex.st.ghost['ltype'], i)])))
                out.append(('%s at most log end' % nm, lambda ex, f=f, v0=v0: f(ex) <= z3.If(ex.st.ghost['lnext'] > v0, ex.st.ghost['lnext'], v0)))
        out.extend(self.more_candidates(ex, s0, info))
        return out

    def more_candidates(self, ex, s0, info):
        return []

    newids = None
    cfgS = None

    def table_loop(self, ex, s0, info, m0):
        """loops that change the member table"""
        import s_contracts
        k, r = z3.Ints('k!tl r!tl')
        out = []
        hk = 'peer.hb_enabled_'
        a0 = _h0(s0, hk, B)

        def inv(i):
            return lambda ex: s_contracts.table_inv(self, ex)[i][-1]
        for i in range(len(s_contracts.table_inv(self, ex))):
            out.append(('table: %s' % s_contracts.table_inv(self, ex)[i][1], inv(i)))
        dom = lambda ex, kk: z3.Select(self.peers(ex).dom, kk)
        val = lambda ex, kk: z3.Select(self.peers(ex).val, kk)
        hb = lambda ex, q: z3.Select(ex.harr(hk, B), q)
        out.append(('members that stay keep their state, others start afresh', lambda ex: ForAll([k], z3.Implies(dom(ex, k), z3.Or(
            z3.And(z3.Select(m0.dom, k), val(ex, k) == z3.Select(m0.val, k), hb(ex, val(ex, k)) == z3.Select(a0, val(ex, k))),
            s_contracts.fresh_member(self, ex, val(ex, k), s0.alloc))), patterns=[dom(ex, k)])))
        out.append(('members are not removed', lambda ex: ForAll([k], z3.Implies(z3.Select(m0.dom, k), z3.And(
            dom(ex, k), val(ex, k) == z3.Select(m0.val, k))), patterns=[z3.Select(m0.dom, k), dom(ex, k)])))
        out.append(('members are not added', lambda ex: ForAll([k], z3.Implies(dom(ex, k), z3.And(
            z3.Select(m0.dom, k), val(ex, k) == z3.Select(m0.val, k))), patterns=[dom(ex, k)])))
        out.append(('members that stay keep heartbeats', lambda ex: ForAll([k], z3.Implies(dom(ex, k), hb(ex, val(ex, k)) == z3.Select(a0, val(ex, k))), patterns=[dom(ex, k)])))
        out.append(('heartbeats are only switched off', lambda ex: ForAll([r], z3.Implies(z3.And(r > 0, r < s0.alloc, hb(ex, r)), z3.Select(a0, r)), patterns=[hb(ex, r)])))
        out.append(('a joining server stays or has joined', lambda ex: z3.Or(self.f(ex, 'srv_to_join_') == _sel0(s0, 'raft_server.srv_to_join_', self.srv), self.f(ex, 'srv_to_join_') == 0)))
        if self.newids is not None:
            for itk in info['mod']['env']:
                v = s0.env.get(itk)
                if isinstance(v, VIter):
                    sv = s0.env.get(v.loc.key) if isinstance(v.loc, LVar) else None
                    if isinstance(sv, VVec):
                        e = z3.Select(sv.arr, k)
                        out.append(('listed servers visited are members', lambda ex, itk=itk, e=e: ForAll([k], z3.Implies(
                            z3.And(k >= 0, k < ex.st.env[itk].pos), dom(ex, z3.Select(ex.harr('srv_config.id_', I), e))), patterns=[e])))
                        out.append(('listed ids visited are not members', lambda ex, itk=itk, e=e: ForAll([k], z3.Implies(
                            z3.And(k >= 0, k < ex.st.env[itk].pos), z3.Not(dom(ex, e))), patterns=[e])))
            out.append(('members added are of the new membership', lambda ex: ForAll([k], z3.Implies(dom(ex, k), z3.Or(
                z3.Select(m0.dom, k), z3.Select(self.newids, k))), patterns=[dom(ex, k)])))
            out.append(('members of the new membership are not removed', lambda ex: ForAll([k], z3.Implies(z3.And(
                z3.Select(m0.dom, k), z3.Select(self.newids, k)), dom(ex, k)), patterns=[z3.Select(m0.dom, k)])))
        for gk, so in (('pconf', I), ('outst', B)):
            if gk in info['mod']['ghost']:
                out.append(('records of known members stay: ' + gk, lambda ex, gk=gk: ForAll([r], z3.Implies(r < s0.alloc, z3.Select(
                    ex.st.ghost[gk], r) == z3.Select(s0.ghost[gk], r)), patterns=[z3.Select(ex.st.ghost[gk], r)])))
        return out

    def peer_loop(self, ex, s0, info):
        out = []
        mod = info['mod']
        k = z3.Int('k!pl')
        its = []
        for key in mod['env']:
            v = s0.env.get(key)
            if isinstance(v, VIter) and isinstance(v.loc, LField) and v.loc.key == 'raft_server.peers_':
                its.append(key)
        if not its and not any(isinstance(s0.env.get(x), VIter) for x in mod['env']):
            pass
        cur = (ex.run, ex.st)
        ex.run, ex.st = Run(ex, None, []), s0.copy()
        try:
            m0 = self.peers(ex)
        finally:
            ex.run, ex.st = cur
        pk = lambda key: z3.Select(m0.val, key)
        for it in its:
            pos = lambda ex, it=it: ex.st.env[it].pos
            done = lambda ex, kk, it=it: z3.And(z3.Select(m0.dom, kk), z3.Select(m0.pos, kk) < pos(ex, it))
            todo = lambda ex, kk, it=it: z3.And(z3.Select(m0.dom, kk), z3.Select(m0.pos, kk) >= pos(ex, it))
            for key, (t, refs) in mod['heap'].items():
                if not key.startswith('peer.') or t.k not in ('int', 'bool', 'ptr'):
                    continue
                so = B if t.k == 'bool' else I
                a0 = _h0(s0, key, so)
                if t.k == 'bool':
                    for val in (True, False):
                        out.append(('%s == %s for the members visited' % (key, val), lambda ex, key=key, so=so, val=val, done=done: ForAll(
                            [k], z3.Implies(done(ex, k), z3.Select(ex.harr(key, so), pk(k)) == val), patterns=[z3.Select(m0.dom, k)])))
                else:
                    out.append(('%s == 0 for the members visited' % key, lambda ex, key=key, so=so, done=done: ForAll(
                        [k], z3.Implies(done(ex, k), z3.Select(ex.harr(key, so), pk(k)) == 0), patterns=[z3.Select(m0.dom, k)])))
                sj = _sel0(s0, 'raft_server.srv_to_join_', self.srv)
                out.append(('%s unchanged for the server that joins' % key, lambda ex, key=key, so=so, a0=a0, sj=sj: z3.Implies(
                    sj != 0, z3.Select(ex.harr(key, so), sj) == z3.Select(a0, sj))))
                out.append(('%s unchanged for the members not visited' % key, lambda ex, key=key, so=so, a0=a0, todo=todo: ForAll(
                    [k], z3.Implies(todo(ex, k), z3.Select(ex.harr(key, so), pk(k)) == z3.Select(a0, pk(k))), patterns=[z3.Select(m0.dom, k)])))
            if 'peer.next_log_idx_' in mod['heap']:
                n0 = _h0(s0, 'peer.next_log_idx_', I)
                out.append(('positions stay or start at the end of the log', lambda ex, n0=n0: ForAll([k], z3.Implies(z3.Select(m0.dom, k), z3.Or(
                    self.pf(ex, 'next_log_idx_', pk(k)) == z3.Select(n0, pk(k)), z3.And(z3.Select(n0, pk(k)) == 0, self.pf(ex, 'next_log_idx_', pk(k)) == ex.st.ghost['lnext']))),
                    patterns=[z3.Select(m0.dom, k)])))
            if 'outst' in mod['ghost']:
                o0 = s0.ghost['outst']
                out.append(('outstanding unchanged for the members not visited', lambda ex, todo=todo: ForAll(
                    [k], z3.Implies(todo(ex, k), z3.Select(ex.st.ghost['outst'], pk(k)) == z3.Select(o0, pk(k))), patterns=[z3.Select(m0.dom, k)])))
                out.append(('members visited are told or marked', lambda ex, done=done: ForAll(
                    [k], z3.Implies(z3.And(done(ex, k), z3.Select(ex.st.ghost['outst'], pk(k)), z3.Select(ex.st.ghost['sentc'], pk(k)) < self.f(ex, 'quick_commit_idx_')),
                                    self.pf(ex, 'pending_commit_flag_', pk(k))), patterns=[z3.Select(m0.dom, k)])))
                out.append(('members visited have a request outstanding', lambda ex, done=done: ForAll(
                    [k], z3.Implies(done(ex, k), z3.Select(ex.st.ghost['outst'], pk(k))), patterns=[z3.Select(m0.dom, k)])))
            # vectors filled while visiting
            for vk in mod['env']:
                vv = s0.env.get(vk)
                if isinstance(vv, VVec):
                    for off in (0, 1):
                        for fld in ('matched_idx_', 'last_resp_', 'next_log_idx_'):
                            out.append(('vector holds %s of the members visited (%d)' % (fld, off), lambda ex, vk=vk, off=off, fld=fld, pos=pos: ForAll(
                                [k], z3.Implies(z3.And(k >= off, k < pos(ex) + off), z3.Select(ex.st.env[vk].arr, k) == self.pf(
                                    ex, fld, z3.Select(m0.val, z3.Select(m0.keys, k - off)))), patterns=[z3.Select(ex.st.env[vk].arr, k)])))
                    out.append(('first element stays', lambda ex, vk=vk, vv=vv: z3.Select(ex.st.env[vk].arr, 0) == z3.Select(vv.arr, 0)))
        if 'outst' in mod['ghost']:
            out.append(('outstanding exactly when busy', lambda ex: ForAll(
                [k], z3.Implies(z3.Select(m0.dom, k), z3.Select(ex.st.ghost['outst'], pk(k)) == self.pf(ex, 'busy_flag_', pk(k))), patterns=[z3.Select(m0.dom, k)])))
            out.append(('told or marked', lambda ex: ForAll(
                [k], z3.Implies(z3.And(z3.Select(m0.dom, k), z3.Select(ex.st.ghost['outst'], pk(k)), z3.Select(ex.st.ghost['sentc'], pk(k)) < self.f(ex, 'quick_commit_idx_')),
                                self.pf(ex, 'pending_commit_flag_', pk(k))), patterns=[z3.Select(m0.dom, k)])))
        if any(x in mod['heap'] for x in ('peer.snp_sync_ctx_', 'snapshot_sync_ctx.offset_', 'snapshot_sync_ctx.snapshot_')):
            def okc(ex):
                sc = lambda q: z3.Select(ex.harr('peer.snp_sync_ctx_', I), q)
                scs = lambda q: z3.Select(ex.harr('snapshot_sync_ctx.snapshot_', I), sc(q))
                sco = lambda q: z3.Select(ex.harr('snapshot_sync_ctx.offset_', I), sc(q))
                return ForAll([k], z3.Implies(z3.And(z3.Select(m0.dom, k), sc(pk(k)) != 0), z3.And(scs(pk(k)) != 0, sc(pk(k)) < ex.st.alloc, sco(pk(k)) < self.sf(ex, 'size_', scs(pk(k))))),
                              patterns=[z3.Select(m0.dom, k)])
            out.append(('transfers in progress are within their snapshots', okc))
        if 'raft_server.peers_' in mod['heap']:
            out.extend(self.table_loop(ex, s0, info, m0))
        for gk in sorted(mod['ghost']):
            gv = s0.ghost[gk]
            if isinstance(gv, z3.ExprRef) and z3.is_array(gv):
                out.append(('ghost %s unchanged' % gk, lambda ex, gk=gk, gv=gv: ex.st.ghost[gk] == gv))
        # searches of a membership
        fr = ex.frames[-1].n
        for itk in mod['env']:
            v = s0.env.get(itk)
            if isinstance(v, VIter) and isinstance(v.loc, LField) and v.loc.key == 'cluster_config.servers_':
                for vk, vv in s0.env.items():
                    if isinstance(vk, tuple) and vk[0] == fr and isinstance(vv, z3.ExprRef) and vv.sort() == I and vk not in mod['env']:
                        def srch(ex, itk=itk, vv=vv, v=v):
                            sv = ex.load(v.loc)
                            e = z3.Select(sv.arr, k)
                            return ForAll([k], z3.Implies(z3.And(k >= 0, k < ex.st.env[itk].pos), z3.Select(ex.harr('srv_config.id_', I), e) != vv), patterns=[e])
                        out.append(('none of the servers visited has the id v%s' % (vk,), srch))
        # a membership built from another one
        nc = mod['heap'].get('cluster_config.servers_')
        if nc is not None and nc[1]:
            for itk in mod['env']:
                v = s0.env.get(itk)
                if not (isinstance(v, VIter) and isinstance(v.loc, LField) and v.loc.key == 'cluster_config.servers_'):
                    continue
                for nr in nc[1]:
                    sid = lambda ex, e: z3.Select(ex.harr('srv_config.id_', I), e)
                    nv = lambda ex, nr=nr: ex.get('cluster_config.servers_', nr)
                    out.append(('servers taken over exist', lambda ex, nv=nv: ForAll([k], z3.Implies(z3.And(k >= 0, k < nv(ex).len), z3.Select(nv(ex).arr, k) > 0),
                                                                                     patterns=[z3.Select(nv(ex).arr, k)])))
                    out.append(('the source of the membership stays', lambda ex, v=v: z3.And(ex.load(v.loc).len == _at(ex, s0, v.loc).len, ex.load(v.loc).arr == _at(ex, s0, v.loc).arr)))
                    S = self.__dict__.setdefault('_srcset', {})
                    for vk, vv in s0.env.items():
                        if not (isinstance(vk, tuple) and vk[0] == fr and isinstance(vv, z3.ExprRef) and vv.sort() == I and vk not in mod['env']):
                            continue
                        out.append(('servers taken over do not have the id v%s' % (vk,), lambda ex, nv=nv, vv=vv: ForAll([k], z3.Implies(
                            z3.And(k >= 0, k < nv(ex).len), sid(ex, z3.Select(nv(ex).arr, k)) != vv), patterns=[z3.Select(nv(ex).arr, k)])))

                        def tk(ex, nv=nv, vv=vv, itk=itk, v=v):
                            e = z3.Select(ex.load(v.loc).arr, k)
                            return ForAll([k], z3.Implies(z3.And(k >= 0, k < ex.st.env[itk].pos, sid(ex, e) != vv), memP(nv(ex).arr, nv(ex).len, sid(ex, e))), patterns=[e])
                        out.append(('servers visited other than v%s are taken over' % (vk,), tk))

                    if self.cfgS is not None:
                        out.append(('servers taken over are of the current membership', lambda ex, nv=nv: ForAll([k], z3.Implies(
                            z3.And(k >= 0, k < nv(ex).len), z3.Select(self.cfgS, sid(ex, z3.Select(nv(ex).arr, k)))), patterns=[z3.Select(nv(ex).arr, k)])))
        lst = [x for x in mod['env'] if isinstance(s0.env.get(x), VVec)]
        ids = lambda ex, e: z3.Select(ex.harr('srv_config.id_', I), e)
        for vk in lst:
            el = lambda ex, vk=vk: z3.Select(ex.st.env[vk].arr, k)
            inr = lambda ex, vk=vk: z3.And(k >= 0, k < ex.st.env[vk].len)
            out.append(('listed servers exist and are not this one', lambda ex, el=el, inr=inr: ForAll([k], z3.Implies(inr(ex), z3.And(
                el(ex) > 0, el(ex) < ex.st.alloc, ids(ex, el(ex)) != self.f(ex, 'id_'))), patterns=[el(ex)])))
            if self.newids is not None:
                out.append(('listed servers are of the new membership', lambda ex, el=el, inr=inr: ForAll([k], z3.Implies(
                    inr(ex), z3.Select(self.newids, ids(ex, el(ex)))), patterns=[el(ex)])))
                # completeness
                vec = lambda ex, vk=vk: ex.st.env[vk]
                for itk in mod['env']:
                    v = s0.env.get(itk)
                    if isinstance(v, VIter) and isinstance(v.loc, LField) and v.loc.key == 'cluster_config.servers_':
                        def allin(ex, itk=itk, v=v, vec=vec):
                            e = z3.Select(ex.load(v.loc).arr, k)
                            x = ids(ex, e)
                            return ForAll([k], z3.Implies(z3.And(k >= 0, k < ex.st.env[itk].pos), z3.Or(
                                z3.Select(m0.dom, x), x == self.f(ex, 'id_'), memP(vec(ex).arr, vec(ex).len, x))), patterns=[e])
                        out.append(('servers visited that are not members are listed', allin))
                for itk in its:
                    out.append(('members visited that are not of the new membership are listed', lambda ex, itk=itk, vec=vec: ForAll([k], z3.Implies(
                        z3.And(z3.Select(m0.dom, k), z3.Select(m0.pos, k) < ex.st.env[itk].pos, z3.Not(z3.Select(self.newids, k))),
                        memI(vec(ex).arr, vec(ex).len, k)), patterns=[z3.Select(m0.dom, k)])))
                out.append(('listed ids are not of the new membership', lambda ex, el=el, inr=inr: ForAll([k], z3.Implies(
                    inr(ex), z3.Not(z3.Select(self.newids, el(ex)))), patterns=[el(ex)])))
        if 'peer.matched_idx_' in mod['heap']:
            out.append(('credits are confirmed', lambda ex: ForAll(
                [k], z3.Implies(z3.Select(m0.dom, k), self.pf(ex, 'matched_idx_', pk(k)) <= z3.Select(ex.st.ghost['pconf'], pk(k))), patterns=[z3.Select(m0.dom, k)])))
        return out


def _at(ex, st, loc):
    cur = (ex.run, ex.st)
    ex.run, ex.st = Run(ex, None, []), st.copy()
    try:
        return ex.load(loc)
    finally:
        ex.run, ex.st = cur


def _sel0(st, key, ref):
    a = _h0(st, key, I)
    while z3.is_store(a) and a.arg(1).eq(ref):
        return a.arg(2)
    return z3.Select(a, ref)


def _h0(st, key, sort):
    a = st.heap.get(key)
    return a if a is not None else z3.Const('H0!' + key, z3.ArraySort(I, sort))
