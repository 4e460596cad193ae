"""Entry points of the server as verification roots (see s_raft.py for the contracts and the invariant)."""
import z3
from core import *
from ctypes_ import T, U64, INT32, BOOL
from spec import Contract
from engine import Root
import s_raft, s_contracts
from s_raft import *

load = s_raft.load
BYPROP = True
REQS = ('append_entries_request', 'vote_request', 'client_request', 'add_server_request', 'remove_server_request', 'sync_log_request',
        'join_cluster_request', 'leave_cluster_request', 'install_snapshot_request', 'prevote_request')
LOGA = ('lterm', 'ltype', 'ldata')


class Srv(RaftSpec):
    """server spec with the posts of the single operations"""

    active = None            # the function whose own contract is being proved

    def __init__(self, tags=None, kind=None):
        super().__init__(tags)
        self.kind = kind

    def contract_for(self, ex, f):
        return s_contracts.contracts(self, ex, f)

    # ---- messages
    def req_setup(self, ex, mtype):
        r = z3.Int('request')
        ex.assume(z3.And(r > 0, r < ex.st.alloc))
        ty = ex.get('msg_base.type_', r)
        if mtype in MT:
            ex.assume(ty == MT[mtype])
            ex.put('msg_base.type_', r, z3.IntVal(MT[mtype]))
        else:
            ex.assume(z3.And(*[ty != MT[x] for x in REQS]))
            ex.assume(z3.And(ty >= 0, ty < 256))
        es = ex.get('req_msg.log_entries_', r)
        j = z3.Int('j!rq')
        e = z3.Select(es.arr, j)
        bu = z3.Select(ex.harr('log_entry.buff_', I), e)
        ex.assume(es.len < 2 ** 31)
        ex.assume(ForAll([j], z3.Implies(z3.And(j >= 0, j < es.len), z3.And(
            e > 0, bu > 0, bu < ex.st.alloc, z3.Select(ex.harr('buffer#pos', I), bu) == 0, z3.Select(ex.harr('buffer#size', I), bu) >= 0,
            z3.Select(ex.harr('log_entry.term_', I), e) >= 0, z3.Select(ex.harr('log_entry.term_', I), e) < MAX)), patterns=[z3.Select(es.arr, j)]))
        m = dict(type=mtype, term=ex.get('msg_base.term_', r), src=ex.get('msg_base.src_', r), prev=ex.get('req_msg.last_log_idx_', r),
                 pterm=ex.get('req_msg.last_log_term_', r), commit=ex.get('req_msg.commit_idx_', r), n=es.len, entries=es, ref=r)
        for k in ('term', 'prev', 'pterm', 'commit'):
            ex.assume(m[k] < MAX)
        if mtype not in ('client_request', 'add_server_request', 'remove_server_request'):
            ex.assume(m['src'] != self.f(ex, 'id_'))       # requests of members come from other servers
        e0 = z3.Select(es.arr, 0)
        m['sync'] = z3.Select(ex.harr('buffer#data', I), z3.Select(ex.harr('log_entry.buff_', I), e0))
        if mtype == 'client_request':
            # client requests are made by append_entries (application entries only, C26)
            ex.assume(ForAll([j], z3.Implies(z3.And(j >= 0, j < es.len), z3.Select(ex.harr('log_entry.value_type_', I), e) == APP), patterns=[z3.Select(es.arr, j)]))
        ex.st.ghost['$msg'] = m
        return r, m

    def resp_setup(self, ex, mtype, known):
        r = z3.Int('response')
        ex.assume(z3.And(r > 0, r < ex.st.alloc))
        ty = ex.get('msg_base.type_', r)
        if mtype in MT:
            ex.put('msg_base.type_', r, z3.IntVal(MT[mtype]))
        else:
            ex.assume(z3.And(ty >= 0, ty < 256, *[ty != MT[x] for x in known]))
        m = dict(type=mtype, term=ex.get('msg_base.term_', r), src=ex.get('msg_base.src_', r), accepted=ex.get('resp_msg.accepted_', r),
                 next=ex.get('resp_msg.next_idx_', r), ref=r)
        ex.assume(z3.And(m['term'] < MAX, m['next'] < MAX))
        m['was'] = z3.Select(self.peers(ex).dom, m['src'])     # a member when the response arrived
        ex.st.ghost['$msg'] = m
        return r, m

    def on_taken(self, ex):
        m = self.msg(ex)
        ty = m.get('type')
        g = ex.st.ghost
        if ty == 'append_entries_request':
            # log matching: an entry of the same index and term is the same entry (C05, C06 on every server)
            es, prev = m['entries'], m['prev']
            j, i = z3.Ints('j!lm i!lm')
            e = z3.Select(es.arr, j)
            bu = z3.Select(ex.harr('log_entry.buff_', I), e)
            ex.assume(ForAll([i], z3.Implies(
                z3.And(i > prev, i <= prev + es.len, i < g['lnext'],
                       z3.Select(g['lterm'], i) == z3.Select(ex.harr('log_entry.term_', I), z3.Select(es.arr, i - prev - 1))),
                z3.And(z3.Select(g['ltype'], i) == z3.Select(ex.harr('log_entry.value_type_', I), z3.Select(es.arr, i - prev - 1)),
                       z3.Select(g['ldata'], i) == z3.Select(ex.harr('buffer#data', I), z3.Select(ex.harr('log_entry.buff_', I), z3.Select(es.arr, i - prev - 1))))),
                patterns=[z3.Select(g['lterm'], i), z3.Select(g['ltype'], i), z3.Select(g['ldata'], i)]))
        if ty == 'heartbeat':
            # the member was one while a transfer to it was in progress
            ex.assume(s_contracts.okctx(self, ex, m['peer']))
            ex.assume(z3.Select(ex.harr('peer.config_', I), m['peer']) != 0)
        if ty == 'vote_response':
            # a vote is granted only to a server that asked for it, and it asks only after voting for itself (C02)
            ex.assume(z3.Implies(z3.And(m['accepted'], m['term'] == self.term(ex)), self.vote(ex) == self.f(ex, 'id_')))
            # election safety: a server that stepped down for the leader of its term gets no majority in that term (C02, C04 on every server)
            ex.assume(z3.Implies(self.role(ex) == FOLLOWER, 2 * (g['vcard'] + 1) <= self.peers(ex).size + 1))
        if ty in ('append_entries_response', 'install_snapshot_response') and self.kind == 'peer':
            pm = self.peers(ex)
            p = z3.Select(pm.val, m['src'])
            base = z3.And(self.role(ex) == LEADER, m['accepted'], m['term'] == self.term(ex), z3.Select(pm.dom, m['src']))
            if ty == 'append_entries_response':
                c = m['next'] - 1
                # a member confirms what the leader sent it, and nothing past the leader's log (C05, C06, C07)
                ex.assume(z3.Implies(base, z3.And(m['next'] >= 1, m['next'] <= g['lnext'])))
            else:
                sc = self.pf(ex, 'snp_sync_ctx_', p)
                s = z3.Select(ex.harr('snapshot_sync_ctx.snapshot_', I), sc)
                c = self.sf(ex, 'last_log_idx_', s)
                base = z3.And(base, sc != 0, m['next'] >= self.sf(ex, 'size_', s))
                ex.assume(z3.Implies(base, z3.And(c < g['lnext'], c >= 0)))
            pc = z3.Select(g['pconf'], p)
            ex.gset('pconf', z3.Store(g['pconf'], p, simp(z3.If(z3.And(base, c > pc), c, pc))))

    def removes(self, ex, d, sv, el, srv):
        """content d is the membership sv without the server srv"""
        j, q = z3.Ints('j!rm q!rm')
        S = self.cfgS
        return z3.And(z3.Select(S, srv),
                      ForAll([j], z3.Implies(z3.And(j >= 0, j < cfN(d)), z3.And(cfId(d, j) != srv, z3.Select(S, cfId(d, j)))), patterns=[cfId(d, j)]),
                      ForAll([q], z3.Implies(z3.And(q >= 0, q < sv.len, el(q) != srv), z3.Exists([j], z3.And(j >= 0, j < cfN(d), cfId(d, j) == el(q)))),
                             patterns=[el(q)]))

    # ---- posts of responses
    def post_peer_resp(self, ex, kind, ret, c):
        ob = lambda tag, lab, f: ex.oblige(tag, lab, f, assume=False)
        m = self.msg(ex)
        old = ex.st.ghost.get('$old')
        if kind != 'return' or old is None:
            return
        g, o = ex.st.ghost, old.ghost
        pm = self.peers(ex, old)
        p = z3.Select(pm.val, m['src'])
        lead = z3.And(self.role(ex, old) == LEADER, z3.Select(pm.dom, m['src']), m['term'] == self.term(ex, old))
        ty = m['type']
        P0 = lambda n, so=I: s_contracts.H(self, ex, old, 'peer.' + n, p, so)
        P1 = lambda n: self.pf(ex, n, p)
        if ty != 'vote_response':
            ob('C05', 'a response leaves the log unchanged', self.log_same(ex, old))
            ob('C04', 'the response does not make the server leader', z3.Or(self.role(ex, old) == LEADER, self.role(ex) != LEADER))
        if ty == 'append_entries_response':
            ob('C08', 'a response from an earlier term or while not leading commits nothing', z3.Or(lead, self.f(ex, 'quick_commit_idx_') == self.f(ex, 'quick_commit_idx_', old)))
            ob('C08', 'a rejection commits nothing', z3.Or(m['accepted'], self.f(ex, 'quick_commit_idx_') == self.f(ex, 'quick_commit_idx_', old)))
            ob('C23', 'a member that was marked for commit news or lags is sent another request', z3.Implies(z3.And(
                lead, m['accepted'], z3.Or(P0('pending_commit_flag_', B), m['next'] < o['lnext'])), z3.Select(g['outst'], p)))
            ob('C23', 'a member that refused is sent another request', z3.Implies(z3.And(lead, z3.Not(m['accepted'])), z3.Select(g['outst'], p)))
            ob('C07', 'replication continues at the position the member confirmed', z3.Implies(z3.And(lead, m['accepted'], m['next'] > 0), P1('next_log_idx_') == m['next']))
            ob('C07', 'after a refusal replication moves back', z3.Implies(z3.And(lead, z3.Not(m['accepted']), P0('next_log_idx_') > 0), z3.Or(
                P1('next_log_idx_') < P0('next_log_idx_'), P1('next_log_idx_') == g['lnext'])))
        if ty == 'install_snapshot_response':
            sc = P0('snp_sync_ctx_')
            s = s_contracts.H(self, ex, old, 'snapshot_sync_ctx.snapshot_', sc)
            sz, si = (s_contracts.H(self, ex, old, 'snapshot.' + n, s) for n in ('size_', 'last_log_idx_'))
            off0 = s_contracts.H(self, ex, old, 'snapshot_sync_ctx.offset_', sc)
            off1 = z3.Select(ex.harr('snapshot_sync_ctx.offset_', I), sc)
            A = z3.And(lead, m['accepted'], sc != 0)
            ob('C08', 'a snapshot response commits nothing', self.f(ex, 'quick_commit_idx_') == self.f(ex, 'quick_commit_idx_', old))
            ob('C12', 'the transfer continues exactly where the receiver confirmed', z3.Implies(z3.And(A, m['next'] < sz), off1 == m['next']))
            ob('C12', 'an unconfirmed chunk is not skipped', z3.Implies(z3.And(lead, sc != 0, z3.Not(m['accepted'])), off1 == off0))
            done = z3.And(A, m['next'] >= sz)
            ob('C12', 'the member is placed at the snapshot only after it confirmed its end', z3.Implies(lead, z3.If(
                done, z3.And(P1('matched_idx_') == si, P1('next_log_idx_') == si + 1), P1('matched_idx_') == P0('matched_idx_'))))

    def post_ext_resp(self, ex, kind, ret, c):
        ob = lambda tag, lab, f: ex.oblige(tag, lab, f, assume=False)
        m = self.msg(ex)
        old = ex.st.ghost.get('$old')
        if kind != 'return' or old is None:
            return
        g, o = ex.st.ghost, old.ghost
        ty = m['type']
        sj = self.f(ex, 'srv_to_join_', old)
        P0 = lambda n, so=I: s_contracts.H(self, ex, old, 'peer.' + n, sj, so)
        P1 = lambda n: self.pf(ex, n, sj)
        if ty == 'install_snapshot_response':
            sc = P0('snp_sync_ctx_')
            s = s_contracts.H(self, ex, old, 'snapshot_sync_ctx.snapshot_', sc)
            sz, si = (s_contracts.H(self, ex, old, 'snapshot.' + n, s) for n in ('size_', 'last_log_idx_'))
            off0 = s_contracts.H(self, ex, old, 'snapshot_sync_ctx.offset_', sc)
            off1 = z3.Select(ex.harr('snapshot_sync_ctx.offset_', I), sc)
            A = z3.And(m['accepted'], sj != 0, sc != 0)
            ob('C12', 'the transfer to a joining server continues exactly where it confirmed', z3.Implies(z3.And(A, m['next'] < sz), off1 == m['next']))
            ob('C12', 'an unconfirmed chunk is not skipped for a joining server', z3.Implies(z3.And(sj != 0, sc != 0, z3.Not(m['accepted'])), off1 == off0))
            ob('C12', 'the joining server is placed at the snapshot only after it confirmed its end', z3.Implies(sj != 0, z3.If(
                z3.And(A, m['next'] >= sz), z3.And(P1('matched_idx_') == si, P1('next_log_idx_') == si + 1), z3.And(
                    P1('matched_idx_') == P0('matched_idx_')))))
        if ty in ('prevote_response', 'other'):
            ob('C05', 'a pre-vote response leaves the log unchanged, unless the server becomes leader', z3.Or(self.role(ex) == LEADER, self.log_same(ex, old)))

    # ---- posts
    def log_same(self, ex, old):
        g, o = ex.st.ghost, old.ghost
        i = z3.Int('i!ls')
        return z3.And(g['lnext'] == o['lnext'], ForAll([i], z3.Implies(z3.And(i < o['lnext'], i >= o['lstart']), z3.And(
            *[z3.Select(g[a], i) == z3.Select(o[a], i) for a in LOGA]))))

    def resp(self, ex, ret):
        ret = ex.scal(ret)
        return ret, (lambda n: ex.get(('msg_base.' if n in ('term_', 'type_', 'src_', 'dst_') else 'resp_msg.') + n, ret))

    def post_req(self, ex, kind, ret, c):
        ob = lambda tag, lab, f: ex.oblige(tag, lab, f, assume=False)
        m = self.msg(ex)
        ty = m['type']
        old = ex.st.ghost.get('$old')
        if kind != 'return':
            return
        if old is None:
            ob('C20', 'a request is handled under the server lock', False)
            return
        r, f = self.resp(ex, ret)
        g, o = ex.st.ghost, old.ghost
        T_ = self.term(ex)
        have = r != 0
        acc = f('accepted_')
        A = z3.And(have, acc)
        if ty != 'join_cluster_request':
            ob('C01', 'an answer states the term in force, and that term has been saved', z3.Implies(have, z3.And(f('term_') == T_, g['PT'] == T_)))
        li = o['lnext'] - 1
        utd = z3.Or(m['pterm'] > z3.Select(o['lterm'], li), z3.And(m['pterm'] == z3.Select(o['lterm'], li), m['prev'] >= li))
        if ty == 'vote_request':
            ob('C02', 'a vote is reported granted only for the current term, after it was saved', z3.Implies(A, z3.And(
                g['PV'] == m['src'], g['PT'] == m['term'], T_ == m['term'], f('term_') == m['term'])))
            ob('C03', 'a vote goes only to a candidate whose log is at least as up to date', z3.Implies(A, utd))
            ob('C05', 'a vote request leaves the log unchanged', self.log_same(ex, old))
        elif ty == 'prevote_request':
            ob('C03', 'a pre-vote goes only to a candidate whose log is at least as up to date', z3.Implies(A, utd))
            ob('C22', 'a pre-vote request changes neither term, vote, role nor log', z3.And(
                T_ == self.term(ex, old), self.vote(ex) == self.vote(ex, old), self.role(ex) == self.role(ex, old),
                g['PT'] == o['PT'], g['PV'] == o['PV'], self.log_same(ex, old)))
        elif ty == 'append_entries_request':
            self.post_append(ex, A, f, m, old)
        elif ty == 'client_request':
            self.post_client(ex, A, m, old)
        elif ty == 'install_snapshot_request':
            d = m['sync']
            ch, ap = g.get('chunk', z3.IntVal(0)), g.get('applied', z3.IntVal(0))
            ob('C11', 'a snapshot chunk is confirmed only when stored, with exactly its end', z3.Implies(A, z3.And(
                ch == 1, f('next_idx_') == ssOff(d) + ssDSz(d))))
            ob('C11', 'the last chunk is confirmed only after the snapshot was applied', z3.Implies(z3.And(A, ssDone(d)), ap == 1))
            ob('C11', 'after installation the applied and commit positions are at the snapshot or past it', z3.Implies(ap == 1, z3.And(
                self.f(ex, 'sm_commit_index_') >= ssIdx(d), self.f(ex, 'quick_commit_idx_') >= ssIdx(d))))
            ob('C11', 'after installation the log before the snapshot is dropped', z3.Implies(ap == 1, g['lstart'] > ssIdx(d)))
            cfg = self.f(ex, 'config_')
            ob('C11', 'after installation the snapshot\'s configuration is in force and saved', z3.Implies(ap == 1, z3.And(
                ex.get('cluster_config.log_idx_', cfg) == cfI(ssConf(d)), g['cfgidx'] == cfI(ssConf(d)))))
            sn = self.f(ex, 'last_snapshot_')
            ob('C11', 'after installation the snapshot is known with its index and term', z3.Implies(ap == 1, z3.And(
                sn != 0, self.sf(ex, 'last_log_idx_', sn) == ssIdx(d), self.sf(ex, 'last_log_term_', sn) == ssTerm(d))))
            ob('C11', 'without installation positions and membership stay', z3.Implies(ap == 0, z3.And(
                self.f(ex, 'sm_commit_index_') == self.f(ex, 'sm_commit_index_', old), self.f(ex, 'config_') == self.f(ex, 'config_', old))))
        elif ty == 'add_server_request':
            sv = scId(m['sync'])
            pm = self.peers(ex, old)
            ob('C13', 'adding an existing member or the leader itself, adding while a change is pending, or adding at a non-leader is refused', z3.Implies(A, z3.And(
                self.role(ex, old) == LEADER, z3.Not(z3.Select(pm.dom, sv)), sv != self.f(ex, 'id_'), z3.Not(self.f(ex, 'config_changing_', old)))))
            ob('C13', 'a refused addition prepares nothing', z3.Or(A, self.f(ex, 'conf_to_add_') == self.f(ex, 'conf_to_add_', old)))
        elif ty == 'remove_server_request':
            sv = intAt(m['sync'], z3.IntVal(0))
            pm = self.peers(ex, old)
            ob('C13', 'removing an unknown server or the leader, removing while a change is pending, or removing at a non-leader is refused', z3.Implies(A, z3.And(
                self.role(ex, old) == LEADER, z3.Select(pm.dom, sv), sv != self.f(ex, 'id_'), z3.Not(self.f(ex, 'config_changing_', old)))))
        if ty in ('add_server_request', 'remove_server_request', 'leave_cluster_request', 'other'):
            ob('C05', 'the request leaves the log unchanged', self.log_same(ex, old))

    def post_append(self, ex, A, f, m, old):
        ob = lambda tag, lab, f: ex.oblige(tag, lab, f, assume=False)
        g, o = ex.st.ghost, old.ghost
        es, prev, n = m['entries'], m['prev'], m['n']
        i, j = z3.Ints('i!pa j!pa')
        T_ = self.term(ex)
        ob('C05', 'entries are accepted only from a leader of the current term', z3.Implies(A, z3.And(m['term'] == T_, self.role(ex) != LEADER)))
        ob('C05', 'entries are accepted only when the preceding entry is in the log with the same term', z3.Implies(A, z3.Or(
            prev == 0, z3.And(prev < o['lnext'], m['pterm'] == z3.Select(o['lterm'], prev)))))
        e = z3.Select(es.arr, i - prev - 1)
        fl = {'lterm': z3.Select(ex.harr('log_entry.term_', I), e), 'ltype': z3.Select(ex.harr('log_entry.value_type_', I), e),
              'ldata': z3.Select(ex.harr('buffer#data', I), z3.Select(ex.harr('log_entry.buff_', I), e))}
        for a in LOGA:
            rng = z3.And(i > prev, i <= prev + n, i >= o['lstart'])
            ob('C05', 'after acceptance the sent entries are in the log at the indexes that follow (%s, written)' % a[1:], z3.Implies(A, ForAll(
                [i], z3.Implies(z3.And(rng, i >= g['wlo']), z3.Select(g[a], i) == fl[a]))))
            ob('C05', 'after acceptance the sent entries are in the log at the indexes that follow (%s, kept)' % a[1:], z3.Implies(A, ForAll(
                [i], z3.Implies(z3.And(rng, i < g['wlo']), z3.Select(g[a], i) == fl[a]))))
        ob('C05', 'after acceptance the log reaches at least the last sent entry', z3.Implies(z3.And(A, n > 0), g['lnext'] >= prev + n + 1))
        ob('C05', 'entries up to the preceding one are untouched', ForAll([i], z3.Implies(z3.And(i <= prev, i >= o['lstart'], i < o['lnext']), z3.And(
            i < g['lnext'], *[z3.Select(g[a], i) == z3.Select(o[a], i) for a in LOGA]))))
        w = ex.fresh('cfl')
        agree = ForAll([i], z3.Implies(z3.And(i > prev, i <= prev + n, i < o['lnext'], i >= o['lstart']), z3.Select(o['lterm'], i) == fl['lterm']))
        ob('C05', 'entries that agree with the request are not removed', z3.Or(z3.Not(agree), z3.And(g['lnext'] >= o['lnext'], ForAll([i], z3.Implies(
            z3.And(i >= o['lstart'], i < o['lnext']), z3.And(*[z3.Select(g[a], i) == z3.Select(o[a], i) for a in LOGA]))))))
        ob('C05', 'a conflicting entry is replaced together with everything after it', z3.Or(z3.Not(A), agree, g['lnext'] == prev + n + 1))
        ob('C05', 'an accepted request reports exactly the index after the last sent entry', z3.Implies(A, f('next_idx_') == prev + n + 1))
        ob('C05', 'a rejected request leaves the log unchanged', z3.Or(A, self.log_same(ex, old)))
        ob('C09', 'a rejected request leaves the commit index unchanged', z3.Or(A, self.f(ex, 'quick_commit_idx_') == self.f(ex, 'quick_commit_idx_', old)))

    def appended(self, ex, old, m):
        """the log is the old one followed by the entries of the request"""
        g, o = ex.st.ghost, old.ghost
        es, n = m['entries'], m['n']
        i = z3.Int('i!ap')
        e = z3.Select(es.arr, i - o['lnext'])
        fl = {'ltype': z3.Select(ex.harr('log_entry.value_type_', I), e),
              'ldata': z3.Select(ex.harr('buffer#data', I), z3.Select(ex.harr('log_entry.buff_', I), e))}
        return z3.And(g['lnext'] == o['lnext'] + n, ForAll([i], z3.Implies(z3.And(i >= o['lstart'], i < o['lnext']), z3.And(
            *[z3.Select(g[a], i) == z3.Select(o[a], i) for a in LOGA]))),
            ForAll([i], z3.Implies(z3.And(i >= o['lnext'], i < o['lnext'] + n), z3.And(*[z3.Select(g[a], i) == fl[a] for a in fl]))))

    def post_client(self, ex, A, m, old):
        ob = lambda tag, lab, f: ex.oblige(tag, lab, f, assume=False)
        ob('C25', 'an accepted client request has all its entries appended, consecutively and in order', z3.Implies(A, self.appended(ex, old, m)))
        ob('C25', 'a refused client request leaves the log unchanged', z3.Or(A, self.log_same(ex, old)))
        ob('C25', 'client data are accepted by a leader only', z3.Implies(A, self.role(ex, old) == LEADER))


def roots(tu, tags, prop):
    out = []
    fn = lambda q, k=0: tu.by_qual['raft_server::' + q][k]
    pr = fn('process_req')

    def req_root(ty):
        sp = Srv(tags, 'req')

        def setup(ex):
            sp.init_state(ex)
            r, m = sp.req_setup(ex, ty)
            return Obj(sp.srv, 'raft_server'), [Obj(r, 'req_msg')], {}
        return Root('process_req[%s]' % ty, sp, tu, setup, sp.post_req, func=pr)
    for ty in REQS + ('other',):
        out.append(req_root(ty))

    def resp_root(fname, mtype, known, kind, confkind=None):
        sp = Srv(tags, kind)
        f = fn(fname)

        def setup(ex):
            sp.init_state(ex)
            r, m = sp.resp_setup(ex, mtype, known)
            if confkind:
                ex.st.ghost['$confkind'] = (confkind, (lambda ex, d, sv, el: sp.removes(ex, d, sv, el, m['src'])) if confkind == 'remove' else (lambda *a: z3.BoolVal(False)))
                mem_axioms(ex)
            return Obj(sp.srv, 'raft_server'), [r, z3.IntVal(0)], {}
        return Root('%s[%s]' % (fname, mtype), sp, tu, setup, sp.post_peer_resp if kind == 'peer' else sp.post_ext_resp, func=f)
    PR = ('vote_response', 'append_entries_response', 'install_snapshot_response')
    for ty in PR + ('other',):
        out.append(resp_root('handle_peer_resp', ty, PR, 'peer'))
    EX = ('sync_log_response', 'join_cluster_response', 'leave_cluster_response', 'install_snapshot_response', 'prevote_response')
    for ty in EX + ('other',):
        out.append(resp_root('handle_ext_resp', ty, EX, 'ext', {'leave_cluster_response': 'remove', 'sync_log_response': 'add', 'join_cluster_response': 'add',
                                                                'install_snapshot_response': 'add'}.get(ty)))

    def err_root(fname, rtype, known=()):
        sp = Srv(tags, 'err')
        f = fn(fname)

        def setup(ex):
            sp.init_state(ex)
            e, r = z3.Ints('error request')
            ex.assume(z3.And(e > 0, e < ex.st.alloc, r > 0, r < ex.st.alloc))
            ex.assume(ex.get('rpc_exception.req_', e) == r)
            m = dict(type='error', ref=r, rtype=rtype, dst=ex.get('msg_base.dst_', r))
            if rtype in MT:
                ex.put('msg_base.type_', r, z3.IntVal(MT[rtype]))
            elif rtype:
                ty = ex.get('msg_base.type_', r)
                ex.assume(z3.And(ty >= 0, ty < 256, *[ty != MT[x] for x in known]))
            ex.st.ghost['$msg'] = m
            if rtype == 'leave_cluster_request':
                ex.st.ghost['$confkind'] = ('remove', lambda ex, d, sv, el: sp.removes(ex, d, sv, el, m['dst']))
                mem_axioms(ex)
            return Obj(sp.srv, 'raft_server'), [z3.IntVal(0), e], {}

        def post(ex, kind, ret, c):
            old = ex.st.ghost.get('$old')
            if kind == 'return' and old is not None and rtype != 'leave_cluster_request':
                ex.oblige('C05', 'a failed request leaves the log unchanged', sp.log_same(ex, old), assume=False)
        return Root('%s[failed %s]' % (fname, rtype or 'request'), sp, tu, setup, post, func=f)
    out.append(err_root('handle_peer_resp', None))
    ER = ('sync_log_request', 'join_cluster_request', 'leave_cluster_request')
    for ty in ER + ('other',):
        out.append(err_root('handle_ext_resp', ty, ER))

    # timers
    def el_root():
        sp = Srv(tags, 'timer')

        def setup(ex):
            sp.init_state(ex)
            ex.st.ghost['$msg'] = dict(type='timeout')
            return Obj(sp.srv, 'raft_server'), [], {}

        def post(ex, kind, ret, c):
            old = ex.st.ghost.get('$old')
            if kind != 'return' or old is None:
                return
            pv = sp.params(ex, 'prevote_enabled_')
            pv = pv if pv.sort() == B else pv != 0
            m = sp.peers(ex, old)
            ex.oblige('C22', 'with pre-voting an election timeout of a follower with other members changes neither term nor vote', z3.Implies(
                z3.And(pv, sp.role(ex, old) == FOLLOWER, m.size > 0), z3.And(
                    sp.term(ex) == sp.term(ex, old), sp.vote(ex) == sp.vote(ex, old), sp.role(ex) == FOLLOWER)), assume=False)
            ex.oblige('C05', 'an election timeout leaves the log unchanged, unless the server becomes leader', z3.Or(sp.role(ex) == LEADER, sp.log_same(ex, old)), assume=False)
        return Root('handle_election_timeout', sp, tu, setup, post, func=fn('handle_election_timeout'))
    out.append(el_root())

    def hb_root():
        sp = Srv(tags, 'hb')
        p = z3.Int('peer')

        def setup(ex):
            sp.init_state(ex)
            ex.st.ghost['$msg'] = dict(type='heartbeat', peer=p)
            ex.assume(z3.And(p > 0, p < ex.st.alloc))
            return Obj(sp.srv, 'raft_server'), [Obj(p, 'peer')], {}

        def post(ex, kind, ret, c):
            old = ex.st.ghost.get('$old')
            if kind != 'return' or old is None:
                return
            g, o = ex.st.ghost, old.ghost
            ex.oblige('C27', 'a heartbeat that fires while not leading sends nothing', z3.Implies(sp.role(ex, old) != LEADER, g['nsend'] == o['nsend']), assume=False)
            ex.oblige('C27', 'a heartbeat that fires while not leading schedules nothing', z3.Implies(sp.role(ex, old) != LEADER, g['nsched'] == o['nsched']), assume=False)
            ex.oblige('C27', 'heartbeats of a leader go on while they are enabled', z3.Implies(z3.And(sp.role(ex, old) == LEADER, sp.pf(ex, 'hb_enabled_', p)),
                                                                                           g['nsched'] == o['nsched'] + 1), assume=False)
            ex.oblige('C05', 'a heartbeat leaves the log unchanged', sp.log_same(ex, old), assume=False)
            ex.oblige('C09', 'a heartbeat leaves the commit index unchanged', sp.f(ex, 'quick_commit_idx_') == sp.f(ex, 'quick_commit_idx_', old), assume=False)
        return Root('handle_hb_timeout', sp, tu, setup, post, func=fn('handle_hb_timeout'))
    out.append(hb_root())

    def peer_arg(ex):
        p = z3.Int('peer')
        return [Obj(p, 'peer')]
    for f in tu.by_qual.get('raft_server::request_append_entries', []):
        if len(f.params) == 1 and f.body is not None:
            sp = Srv(tags, 'contract')
            out.append(s_contracts.contract_root('request_append_entries(peer)', sp, tu, f, s_contracts.SendToPeer(sp), peer_arg))
    for f in tu.by_qual.get('raft_server::has_conf_after', []):
        if len(f.params) == 1 and f.body is not None:
            sp = Srv(tags, 'contract')
            out.append(s_contracts.contract_root('has_conf_after', sp, tu, f, s_contracts.HasConf(sp), lambda ex: [z3.Int('idx')]))
    for f in tu.by_qual.get('cluster_config::get_server', []):
        if len(f.params) == 1 and f.body is not None:
            sp = Srv(tags, 'contract')

            def mkthis(ex):
                c = z3.Int('config')
                sv = ex.get('cluster_config.servers_', c)
                j = z3.Int('j!ex')
                e = z3.Select(sv.arr, j)
                ex.assume(z3.And(c > 0, c < ex.st.alloc, sv.len >= 0, sv.len < 2 ** 20, ForAll([j], z3.Implies(z3.And(j >= 0, j < sv.len), z3.And(e > 0, e < ex.st.alloc)), patterns=[e])))
                return Obj(c, 'cluster_config')
            out.append(s_contracts.contract_root('get_server', sp, tu, f, s_contracts.GetServer(), lambda ex: [z3.Int('id')], mkthis))
    for f in tu.by_qual.get('raft_server::reconfigure', []):
        if len(f.params) == 1 and f.body is not None:
            out.append(rc_root(tu, tags, f))
    return out


def rc_root(tu, tags, f):
    sp = Srv(tags, 'contract')

    def args(ex):
        c = z3.Int('newconf')
        sp.newids = sp.idset(ex, c)
        mem_axioms(ex)
        t = ex.field('raft_server.config_')
        lv = ex.new_local(t, c) if hasattr(ex, 'new_local') else c
        return [lv]
    return s_contracts.contract_root('reconfigure', sp, tu, f, s_contracts.Reconfigure(sp), args)
