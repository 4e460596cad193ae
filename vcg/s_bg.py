"""The background committer, snapshot creation and compaction, and the calls of the application programming interface."""
import z3
from core import *
from ctypes_ import T, U64, INT32, BOOL
from engine import Root
from spec import Contract
import s_raft, s_contracts
from s_raft import *
from s_server import Srv

load = s_raft.load
BYPROP = True


class SnapshotAndCompact(Contract):
    """snapshot_and_compact(i): creates a snapshot at i when it is due (proved by the root of that name)"""

    def __init__(self, sp):
        self.sp = sp

    def requires(self, ex, this, vals):
        sp = self.sp
        i = ex.scal(vals[0])
        return [('C24', 'a snapshot is considered at the entry applied last', z3.And(
                    i == sp.f(ex, 'sm_commit_index_'), i < ex.st.ghost['lnext'], i >= ex.st.ghost['lstart'])),
                ('C20', 'the server lock is not needed', z3.BoolVal(True))]

    def havoc(self, ex, this, vals):
        ex.bump_alloc()
        ex.havoc_field('raft_server.snp_in_progress_', ex.field('raft_server.snp_in_progress_'), self.sp.srv)

    def ensures(self, ex, old, this, vals, ret):
        return []


class Bg(Srv):
    """commit_in_bg: not under the lock; other operations go on meanwhile.
    ghost ld: the last entry handed to the state machine (or applied before)"""
    KEEP_SM = True
    LOGS = ('lterm', 'ltype', 'ldata')

    def on_read(self, ex, l):
        if isinstance(l, LField) and l.key == 'raft_server.quick_commit_idx_' and self.mine(l) and not self.held(ex) and not self.quiet:
            old = self.f(ex, 'quick_commit_idx_')
            self.quiet = True
            try:
                ex.havoc_field(l.key, ex.field(l.key), self.srv)
                new = self.f(ex, 'quick_commit_idx_')
                ex.assume(z3.And(new >= old, new < MAX))
            finally:
                self.quiet = False
        return super().on_read(ex, l)

    quiet = False

    def inv(self, ex):
        q, self.quiet = self.quiet, True
        try:
            return super().inv(ex)
        finally:
            self.quiet = q

    def f(self, ex, name, st=None):
        q, self.quiet = self.quiet, True
        try:
            return super().f(ex, name, st)
        finally:
            self.quiet = q

    def on_lock(self, ex, key, ref, mode, mt):
        if key == 'raft_server.lock_' and not self.held(ex):
            self.pre = dict((k, ex.st.ghost[k]) for k in self.LOGS + ('lstart', 'lnext', 'cfgidx', 'ld'))
            self.pre['q'] = self.f(ex, 'quick_commit_idx_')
        super().on_lock(ex, key, ref, mode, mt)

    def on_taken(self, ex):
        super().on_taken(ex)
        if 'snpown' in ex.st.ghost:
            # only who set the mark clears it (obligations of every writer)
            ex.assume(z3.Implies(ex.st.ghost['snpown'] == 1, self.f(ex, 'snp_in_progress_')))
        if self.msg(ex).get('type') == 'snapshot_done':
            # it is a snapshot of an applied entry of the log
            idx = self.sf(ex, 'last_log_idx_', self.msg(ex)['s'])
            ex.assume(z3.And(idx < ex.st.ghost['lnext'], idx <= self.f(ex, 'sm_commit_index_'), self.f(ex, 'last_snapshot_') != self.msg(ex)['s']))
            return
        if self.pre is None:
            return
        i = z3.Int('i!bg')
        g = ex.st.ghost
        sm = self.f(ex, 'sm_commit_index_')
        # the last snapshot lies within what is applied
        ls = self.f(ex, 'last_snapshot_')
        ex.assume(z3.Implies(ls != 0, self.sf(ex, 'last_log_idx_', ls) <= sm))
        # committed entries are permanent (C05, C06, C08 on every server); the commit index only grows (C09);
        # the log is compacted only up to a snapshot, which is applied (C24)
        for a in self.LOGS:
            ex.assume(ForAll([i], z3.Implies(i <= sm, z3.Select(g[a], i) == z3.Select(self.pre[a], i)), patterns=[z3.Select(g[a], i)]))
        ex.assume(z3.And(self.f(ex, 'quick_commit_idx_') >= self.pre['q'], g['lnext'] > sm, g['lstart'] <= sm, g['lstart'] >= self.pre['lstart']))

    def undelivered(self, ex, upto):
        i = z3.Int('i!ud')
        g = ex.st.ghost
        return ForAll([i], z3.Implies(z3.And(i > g['ld'], i <= upto), z3.Select(g['ltype'], i) != APP), patterns=[z3.Select(g['ltype'], i)])

    def on_sm_commit(self, ex, i, d):
        g = ex.st.ghost
        ex.oblige('C10', 'an entry is handed over at most once and in order of its index', i > g['ld'])
        ex.oblige('C10', 'no application entry is skipped', self.undelivered(ex, i - 1))
        ex.oblige('C10', 'only application entries are handed over', z3.Select(g['ltype'], i) == APP)
        ex.oblige('C10', 'the data handed over are those stored at the index', d == z3.Select(g['ldata'], i))
        ex.oblige('C10', 'nothing is applied beyond the commit index', i <= self.f(ex, 'quick_commit_idx_'))
        ex.oblige('C10', 'nothing is applied beyond the end of the log', i < g['lnext'])
        ex.gset('ld', i)

    def on_sm_write(self, ex, l, v):
        g = ex.st.ghost
        sm = self.f(ex, 'sm_commit_index_')
        ex.oblige('C10', 'the applied index moves on by one', z3.Or(v == sm, v == sm + 1))
        ex.oblige('C10', 'the applied index moves on only when the entries before it were handed over', self.undelivered(ex, v - 1))
        ex.oblige('C10', 'the applied index stays within commit index and log', z3.And(v <= self.f(ex, 'quick_commit_idx_'), v < g['lnext']))
        ex.oblige('C14', 'a committed membership entry has been saved and is in force, or a newer one is, before the next entry', self.confdone(ex))

    def confdone(self, ex):
        g = ex.st.ghost
        sm = self.f(ex, 'sm_commit_index_')
        d = z3.Select(g['ldata'], sm)
        return z3.Or(sm == g['sm0'], z3.Select(g['ltype'], sm) != CONF, z3.And(
            g['cfdone'] == sm, ex.get('cluster_config.log_idx_', self.f(ex, 'config_')) >= cfI(d)))

    def i_state_mgr_save_config(self, ex, obj, args, n):
        r = super().i_state_mgr_save_config(ex, obj, args, n)
        g = ex.st.ghost
        sm = self.f(ex, 'sm_commit_index_')
        ex.gset('cfdone', simp(z3.If(g['cfgidx'] == cfI(z3.Select(g['ldata'], sm)), sm, g['cfdone'])))
        return r

    def more_candidates(self, ex, s0, info):
        g = ex.st.ghost
        if 'ld' not in g:
            return []
        i = z3.Int('i!bc')
        g0 = s0.ghost
        out = [('entries up to the applied one are handed over', lambda ex: self.undelivered(ex, self.f(ex, 'sm_commit_index_'))),
               ('last one handed over is applied', lambda ex: ex.st.ghost['ld'] <= self.f(ex, 'sm_commit_index_')),
               ('committed membership is in force', lambda ex: self.confdone(ex)),
               ('applied is within the commit index', lambda ex: self.f(ex, 'sm_commit_index_') <= self.f(ex, 'quick_commit_idx_')),
               ('applied is within the log', lambda ex: self.f(ex, 'sm_commit_index_') < ex.st.ghost['lnext']),
               ('the log begins at the entry to apply or before', lambda ex: ex.st.ghost['lstart'] <= self.f(ex, 'sm_commit_index_') + 1),
               ('magnitudes', lambda ex: z3.And(ex.st.ghost['lnext'] < MAX, self.f(ex, 'quick_commit_idx_') < MAX)),
               ('there is a membership', lambda ex: self.f(ex, 'config_') != 0),
               ('the log begins where it did or later', lambda ex: ex.st.ghost['lstart'] >= g0['lstart'])]
        return out

    narrow = False
    LIGHT = ('raft_server.snp_in_progress_',)

    def only_candidates(self, ex, s0, mod):
        """outside the lock only the position of this thread is known"""
        return self.more_candidates(ex, s0, None) if self.narrow and not self.held(ex) else None

    def contract_for(self, ex, f):
        if self.narrow and f.cls == 'raft_server' and f.name == 'snapshot_and_compact' and len(f.params) == 1:
            return SnapshotAndCompact(self)
        return super().contract_for(ex, f)

    # snapshots
    def release(self, ex):
        """what was decided under the lock is judged by what was true there"""
        super().release(ex)
        pre = ex.st.copy()
        pre.ghost.pop('$pre', None)
        ex.st.ghost['$pre'] = pre

    def on_create_snapshot(self, ex, s):
        g = ex.st.ghost
        at = ex.st if self.held(ex) else g.get('$pre') or ex.st
        ob = lambda lab, fn: ex.oblige('C24', lab, self.at(ex, at, fn))
        idx = self.sf(ex, 'last_log_idx_', s)
        lc = self.sf(ex, 'last_config_', s)
        dist = self.params(ex, 'snapshot_distance_')
        ob('a snapshot is created at an index that was applied', lambda: z3.And(idx <= self.f(ex, 'sm_commit_index_')))
        ob('a snapshot carries the true term of its last entry', lambda: self.sf(ex, 'last_log_term_', s) == z3.Select(ex.st.ghost['lterm'], idx))
        ob('a snapshot carries a configuration that is not newer', lambda: z3.And(lc != 0, ex.get('cluster_config.log_idx_', lc) <= idx))
        ob('snapshots are created only when enabled', lambda: dist > 0)

        def due():
            ls = self.f(ex, 'last_snapshot_')
            return z3.And(idx - g['lst0'] >= dist, z3.Or(ls == 0, idx - self.sf(ex, 'last_log_idx_', ls) >= dist))
        ob('snapshots are created only when due', due)
        ex.oblige('C24', 'at most one snapshot is created at a time', z3.And(self.f(ex, 'snp_in_progress_'), g['snpown'] == 1))
        ex.gset('created', z3.IntVal(1))

    def w_snp(self, ex, l, v):
        if not self.mine(l) or 'snpown' not in ex.st.ghost:
            return
        was = self.f(ex, 'snp_in_progress_')
        v = ex.truth(v)
        g = ex.st.ghost
        ex.oblige('C24', 'the mark of a snapshot in progress is only set by who found it clear', z3.Implies(v, z3.Or(z3.Not(was), g['snpown'] == 1)))
        ex.oblige('C24', 'the mark of a snapshot in progress is only cleared by who set it', z3.Implies(z3.And(was, z3.Not(v)), z3.Or(
            g['snpown'] == 1)))
        ex.gset('snpown', simp(z3.If(v, z3.If(was, g['snpown'], z3.IntVal(1)), z3.IntVal(0))))

    def on_write(self, ex, l, v):
        if isinstance(l, LField) and l.key == 'raft_server.snp_in_progress_':
            self.w_snp(ex, l, v)
        return super().on_write(ex, l, v)


def ghosts(ex, sp):
    g = ex.st.ghost
    g['ld'] = sp.f(ex, 'sm_commit_index_')
    g['sm0'] = sp.f(ex, 'sm_commit_index_')
    g['cfdone'] = z3.IntVal(0)
    g['snpown'] = z3.IntVal(0)
    g['lst0'] = g['lstart']
    g['created'] = z3.IntVal(0)


def roots(tu, tags, prop):
    out = []
    fn = lambda q, k=0: tu.by_qual['raft_server::' + q][k]

    def bg_root():
        sp = Bg(tags, 'bg')
        sp.pre = None
        sp.narrow = True

        def setup(ex):
            sp.init_state(ex)
            ex.st.ghost['$msg'] = dict(type='commit')
            sp.pre = None
            # a consistent state to begin with
            sp.quiet = True
            sp.take_over(ex)
            sp.quiet = False
            ex.assume(z3.And(sp.f(ex, 'sm_commit_index_') < sp.g(ex, 'lnext'), sp.g(ex, 'lstart') <= sp.f(ex, 'sm_commit_index_') + 1))
            ghosts(ex, sp)
            return Obj(sp.srv, 'raft_server'), [], {}
        return Root('commit_in_bg', sp, tu, setup, lambda ex, k, r, c: None, func=fn('commit_in_bg'))
    out.append(bg_root())

    def snp_root():
        sp = Bg(tags, 'snp')
        sp.pre = None

        def setup(ex):
            sp.init_state(ex)
            ex.st.ghost['$msg'] = dict(type='commit')
            sp.pre = None
            sp.quiet = True
            sp.take_over(ex)
            sp.quiet = False
            i = z3.Int('index')
            ex.assume(z3.And(i == sp.f(ex, 'sm_commit_index_'), i < sp.g(ex, 'lnext'), i >= sp.g(ex, 'lstart')))
            ls = sp.f(ex, 'last_snapshot_')
            # the last snapshot lies within what is applied (created at an applied index, or installed, which sets the applied index)
            ex.assume(z3.Implies(ls != 0, sp.sf(ex, 'last_log_idx_', ls) <= i))
            ghosts(ex, sp)
            ex.st.ghost['$thrown'] = z3.IntVal(0)
            return Obj(sp.srv, 'raft_server'), [i], {}

        def post(ex, kind, ret, c):
            g = ex.st.ghost
            old = c['old']
            if kind == 'return':
                ex.oblige('C24', 'a snapshot that failed does not block later ones', z3.Implies(g['$thrown'] == 1, z3.Not(sp.f(ex, 'snp_in_progress_'))), assume=False)
                ex.oblige('C24', 'the mark of a snapshot in progress stays set only for one that was started', z3.Or(
                    g['created'] == 1, g['snpown'] == 0), assume=False)
                ex.oblige('C24', 'a snapshot that was started keeps the mark until it completes', z3.Implies(z3.And(
                    g['created'] == 1, g['snpown'] == 1), sp.f(ex, 'snp_in_progress_')), assume=False)
        return Root('snapshot_and_compact', sp, tu, setup, post, func=fn('snapshot_and_compact'))
    out.append(snp_root())

    def done_root():
        sp = Bg(tags, 'snpdone')
        sp.pre = None
        sp.KEEP_SM = False

        def setup(ex):
            sp.init_state(ex)
            sp.pre = None
            s, e, res = z3.Int('snapshot'), z3.Int('error'), z3.Bool('result')
            ex.st.ghost['$msg'] = dict(type='snapshot_done', s=s, ok=z3.And(e == 0, res))
            ex.assume(z3.And(s > 0, s < ex.st.alloc, e >= 0))
            # as created (see snapshot_and_compact)
            lc = sp.sf(ex, 'last_config_', s)
            ex.assume(z3.And(lc != 0, ex.get('cluster_config.log_idx_', lc) <= sp.sf(ex, 'last_log_idx_', s), sp.sf(ex, 'last_log_idx_', s) < MAX))
            ghosts(ex, sp)
            ex.st.ghost['snpown'] = z3.IntVal(1)
            ex.st.ghost['ncomp'] = z3.IntVal(0)
            return Obj(sp.srv, 'raft_server'), [s, res, e], {}

        def on_compact(ex, i):
            m = sp.msg(ex)
            ex.oblige('C24', 'the log is compacted only after the snapshot completed successfully', m['ok'])
            ex.oblige('C24', 'compaction keeps the reserved entries behind the snapshot', i + sp.params(ex, 'reserved_log_items_') <= sp.sf(ex, 'last_log_idx_', m['s']))
        sp.on_compact = on_compact

        def last(ex, obj, args, n):
            m = sp.msg(ex)
            r = Bg.i_state_machine_last_snapshot(sp, ex, obj, args, n)
            ex.st.ghost['$smsnap'] = r
            return r
        sp.i_state_machine_last_snapshot = last

        def post(ex, kind, ret, c):
            m = sp.msg(ex)
            sm = ex.st.ghost.get('$smsnap')
            now = sp.f(ex, 'last_snapshot_')
            # only the state machine knows the size of the data; the leader sends snapshots of non-zero size only
            ex.oblige('C12', 'the snapshot recorded for sending is the one the state machine holds', z3.Or(
                z3.Not(m['ok']), now != m['s']) if sm is None else z3.Or(z3.Not(m['ok']), sm == 0, sp.sf(ex, 'last_log_idx_', sm) != sp.sf(ex, 'last_log_idx_', m['s']),
                sp.sf(ex, 'size_', now) == sp.sf(ex, 'size_', sm)), assume=False)
            ex.oblige('C24', 'a completed, failed or rejected snapshot does not block later ones', z3.And(
                z3.BoolVal(kind == 'return'), z3.Not(sp.f(ex, 'snp_in_progress_'))), assume=False)
        return Root('on_snapshot_completed', sp, tu, setup, post, func=fn('on_snapshot_completed'))
    out.append(done_root())
    return out
