#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to review)."""
import json,os
R='src/raft_server.cxx'; Q='src/raft_server_req_handlers.cxx'; P='src/raft_server_resp_handlers.cxx'
H='include/raft_server.hxx'
props=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    props.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,
      state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
      mechanism=[dict(name=n,where=w) for n,w in mech],
      observe_at=list(observe),hook_needed=None)))
HI=['inputs','histories']
p('C01','A server\'s term never goes back and is durable before it is announced',
  'Through any sequence of requests, responses and timer events the term of a server never decreases, and whenever a server sends a message or answers a request, the term it is in has already been handed to the state manager for saving. A restarted server resumes with the last saved term. Accepting an invitation to join a cluster as a new member is the only event exempt from this.',
  HI+['crash_points'],'every request, response and timer event, in every reachable server state, and a restart after any of them',
  'The tests start fresh servers, run one election and a few appends over a fake network and never restart one or feed it stale or malformed terms.',
  [R,Q,P,'include/srv_state.hxx'],
  [('update_term saves before acting',R),('become_candidate increments and saves',R),('request_vote saves the own vote',R)],
  [('state_.term_','current term','include/srv_state.hxx')],['state_mgr::save_state','rpc_client::send','process_req result'])
p('C02','At most one vote per term, saved before it is given',
  'In one term a server grants its vote to at most one candidate (itself included), in any order and repetition of requests and across restarts. When a vote is reported as granted, or a server asks others for votes, the vote and the term it belongs to have already been saved. A vote is granted only for the term the server is in. Joining a cluster as a new member is exempt.',
  HI+['crash_points'],'all sequences of vote requests (duplicates, stale and newer terms, several candidates), timer events and restarts',
  'Tests hold at most one contested election and never restart a server between two vote requests.',
  [Q,R,'include/srv_state.hxx'],
  [('handle_vote_req grant condition and save_state',Q),('request_vote votes for itself and saves',R),('update_term clears the vote only when the term grows',R)],
  [('state_.voted_for_','vote in the current term','include/srv_state.hxx')],['resp_msg.accepted of a vote response','state_mgr::save_state'])
p('C03','Votes and pre-votes only go to candidates with an up-to-date log',
  'A server grants a vote or a pre-vote only if the candidate\'s last log position (term first, then index) is at least its own last log position, and this stays true when its own log has been compacted behind a snapshot. The vote and pre-vote requests a server sends state its own true last log index and term.',
  HI,'every pair of candidate position and own log (any length, terms, compacted or not)',
  'Tests only use logs that were never compacted and candidates that are equal or ahead.',
  [Q,R],[('log_okay in handle_vote_req and handle_prevote_req',Q),('term_for_log',R),('request_vote and request_prevote',R)],
  [],['resp_msg.accepted of vote and prevote responses','vote/prevote requests sent'])
p('C04','A server becomes leader only with a strict majority of distinct votes',
  'A server assumes leadership only in a term in which a strict majority of the current members, counted as distinct servers that were members when they answered and including itself, have granted it their vote in that same term. Duplicate, rejected, stale-term or foreign responses never count.',
  HI,'every order and duplication of vote responses, cluster sizes and intervening terms',
  'Tests elect leaders in 3-node clusters with well-behaved single responses.',
  [P,R],[('handle_voting_resp counts distinct voters',P),('request_vote single-member shortcut',R)],
  [('votes_granted_','granted votes',H),('voted_servers_','servers that answered',H)],['first append request as leader','is_leader'])
p('C05','A follower\'s log becomes exactly the leader\'s: checked, matched, never torn',
  'A follower accepts entries only from a leader of its current term and only if its log contains the preceding entry the request names with the same term. After acceptance its log holds the sent entries at exactly the indexes that follow, entries before them are untouched, entries that already agree with the request are not removed, and conflicting ones are replaced together with everything after them. The response reports exactly the index after the last sent entry; a rejected request leaves the log unchanged.',
  HI,'every follower log and every append request (overlap, conflict, gap, heartbeat, duplicates, reordered)',
  'Tests append to empty or identical logs; overlaps with conflicts are not covered.',
  [Q],[('handle_append_entries: log check, overlap scan, overwrite, append',Q)],
  [],['log_store::append/write_at','append response'])
p('C06','A leader only appends, and stamps what it appends with its term',
  'While a server stays leader it never overwrites, truncates or replaces entries of its own log: new entries go to the end only. Every entry a leader adds, whether client data or configuration, carries its current term.',
  HI,'every sequence of client requests, responses, membership operations and timers while leader',
  'Tests check a handful of appended values, not terms and not that earlier entries are untouched in all paths.',
  [R,Q,P],[('handle_cli_req',Q),('become_leader initial config',R),('sync_log_to_new_srv / rm_srv_from_cluster',Q),('replicate_log',R)],
  [],['log_store::append/write_at/apply_pack'])
p('C07','Replication requests describe the sender\'s log truthfully',
  'Every append request a leader sends names a preceding entry that exists in its log with the true term, carries the entries that directly follow it in its log, in order, unchanged, without gaps and no more than the configured batch size, and states the leader\'s term and commit index. Entries that are available for the receiver are not held back.',
  HI,'every leader log (compacted or not), receiver position and batch size',
  'Tests replicate a few entries with the default batch size.',
  [R],[('create_append_entries_req',R),('term_for_log',R)],[('next_log_idx_','next index to send','include/peer.hxx')],['rpc_client::send'])
p('C08','A leader commits only what a majority holds, from its own term',
  'A leader advances its commit index to an entry only if a strict majority of the members, itself included, have confirmed in its current term of leadership that their logs agree with its own up to that entry, and that entry was created in its current term; a sole member may commit its whole log. Rejections, responses from earlier terms, and responses received while not leading never advance it.',
  HI,'all cluster sizes, match positions, orders and duplications of responses, leadership changes',
  'Tests commit in a 3-node cluster without leader changes or stale responses.',
  [P,R],[('handle_append_entries_resp sorts matched indexes and commits the quorum one',P),('become_leader resets per-peer progress',R),('commit',R)],
  [('matched_idx_','highest index known to match on a member','include/peer.hxx'),('quick_commit_idx_','commit index',H)],['commit index in requests sent','state_machine::commit'])
p('C09','A follower never commits beyond what it verified, nor moves back',
  'A follower raises its commit index only on an accepted append request, and to no more than the smaller of the leader\'s commit index and the last entry that this request verified. The commit index of a server never decreases, except when it accepts an invitation to join a cluster as a new member.',
  HI,'every follower log with unverified suffixes and every commit index claimed by a leader',
  'Tests never present a commit index that covers an unverified suffix.',
  [Q,R],[('handle_append_entries',Q),('commit',R),('handle_snapshot_sync_req',Q)],[('quick_commit_idx_','commit index',H)],['state_machine::commit','commit index in requests sent'])
p('C10','Committed entries reach the state machine once each and in order',
  'The state machine receives exactly the application entries of the log, each once, in index order, with the index and data stored in the log, none skipped, and never beyond the commit index or the end of the log.',
  HI+['schedules'],'every log content mix of application and configuration entries, every growth of the commit index, spurious wakeups',
  'Tests check a few committed values and not the exclusion of skips, repeats or over-runs.',
  [R],[('commit_in_bg',R)],[('sm_commit_index_','last index given to the state machine',H)],['state_machine::commit'])
p('C11','Snapshot installation only moves a follower forward',
  'A server applies a received snapshot only as a follower of a leader whose term is not older than its own (or, while joining, from the cluster it joins), only when the snapshot is newer than what it has applied, and only after the last chunk. Each chunk is stored with its own offset and data, and the response confirms exactly the end of the stored chunk. After installation the applied and commit positions are at or past the snapshot, the log before it is dropped, and the snapshot\'s configuration is in force and saved.',
  HI,'every install-snapshot request (stale, repeated, partial, final) in every server state',
  'No test installs a snapshot.',
  [Q],[('handle_install_snapshot_req / handle_snapshot_sync_req',Q)],[],['state_machine::save_snapshot_data/apply_snapshot','log_store::compact','install response'])
p('C12','Snapshot transfer covers the snapshot contiguously and ends exactly at its end',
  'A leader sends a snapshot to a lagging or joining member as chunks that start at offset zero, continue exactly where the receiver confirmed, are never empty, never exceed the configured block size or the snapshot, and are flagged final exactly when they reach its end, for snapshots of any size. The member is considered to be at the snapshot\'s position only after it confirmed the end.',
  HI,'every snapshot size, block size and sequence of confirmations',
  'No test transfers a snapshot.',
  [R,P,Q],[('create_sync_snapshot_req',R),('handle_install_snapshot_resp',P),('handle_ext_resp install branch',P)],[('snp_sync_ctx_','transfer in progress','include/peer.hxx')],['install request sent','state_machine::read_snapshot_data'])
p('C13','Membership changes are proposed by the leader only, one server at a time',
  'Only a leader proposes a membership by adding an entry for it to the log, and it does so only when no earlier membership entry in its log is still uncommitted. Apart from the entry that records the initial membership, a new membership differs from the current one by exactly one server, is linked to the previous one and carries its own log index; adding an existing id or the leader itself, or removing an unknown server or the leader, is refused.',
  HI,'every interleaving of add/remove requests, duplicated or late responses, rpc failures and role changes',
  'Tests add and remove servers one after the other with no duplicates, failures or leader changes.',
  [Q,P,R],[('config_changing_ guard',Q),('sync_log_to_new_srv',Q),('rm_srv_from_cluster',Q),('handle_ext_resp, handle_ext_resp_err',P)],[('config_changing_','uncommitted membership entry exists',H)],['log_store::append of conf entries','add/remove responses'])
p('C14','A committed membership takes effect completely',
  'When a membership entry is committed, or a snapshot with one is installed, it is saved, and from then on the server talks to exactly the other servers it names, keeping the replication state of those that stay. A server that is no longer named saves it and stops; an older membership never replaces a newer one.',
  HI,'every old and new membership (adds, removals, both, self removed, own id absent)',
  'Tests cover a single add and a single remove.',
  [R,Q],[('reconfigure',R),('commit_in_bg conf branch',R)],[('peers_','other members',H),('config_','membership in force',H)],['state_mgr::save_config','targets of requests'])
p('C15','Buffer primitives: in bounds, exact positions, values read back as written',
  'For every buffer size from 0 to 2^31-1 and every position, each read and write either touches only the bytes between the position and the end and advances the position by exactly the value\'s size, or fails with an exception and changes nothing. Every integer, byte, string and nested buffer that was written is read back identical, for all values.',
  ['inputs'],'all sizes (small and large block format), positions, values and strings',
  'The buffer test samples a few hundred random values in two buffer sizes.',
  ['src/buffer.cxx','include/buffer.hxx'],[('bounds checks, little-endian loops and position macros','src/buffer.cxx')])
p('C16','Serialised objects deserialise to equal objects',
  'Log entries, server configurations, cluster configurations with any number of servers, snapshots and snapshot chunks, once serialised and deserialised, equal the original in every field, and deserialisation consumes exactly the bytes that serialisation produced. Endpoints are non-empty and free of NUL; cluster configurations have fewer than 2^31 servers.',
  ['inputs'],'all field values, payload sizes and server counts',
  'The serialization test samples random objects with small payloads.',
  ['src/cluster_config.cxx','src/srv_config.cxx','src/snapshot.cxx','src/snapshot_sync_req.cxx','include/log_entry.hxx'],[('serialize/deserialize pairs','src')])
p('C17','RPC messages arrive as they were sent, malformed ones are contained',
  'Every request or response that is encoded for the network decodes on the other side to a message with the same fields, entry terms, types and payloads. A frame that is malformed, truncated or inconsistent is answered by closing the session or reporting an error: it never makes a server read or write outside the received data.',
  ['inputs'],'all messages and all byte sequences received in a frame of the announced size',
  'Tests exchange well-formed messages only.',
  ['src/asio_service.cxx','src/buffer.cxx'],[('req_to_buf / resp_to_buf / buf_to_resp and rpc_session::read_log_data','src/asio_service.cxx')])
p('C18','The file log store behaves as one growing, truncatable sequence',
  'For every sequence of append, overwrite, pack application and compaction, the file-backed log store answers next slot, start index, last entry, entry, term and range queries exactly as an in-memory sequence of the same entries would: an overwrite replaces the entry and drops all later ones, an append returns the index it wrote, and cached and on-disk answers agree.',
  ['inputs','histories'],'all operation sequences, entry sizes and cache sizes',
  'The store test runs one random sequence with a few operations per kind.',
  ['src/fs_log_store.cxx','include/fs_log_store.hxx'],[('append/write_at/entry_at/term_at/log_entries/compact/apply_pack, log_store_buffer','src/fs_log_store.cxx')])
p('C19','The file log store keeps its contents across reopen and transfer',
  'Closing and reopening the file-backed log store after any sequence of operations gives back the same start index and entries. A pack taken from one store and applied at the same index in another reproduces the packed entries exactly, and compaction removes exactly the entries up to the given index.',
  ['inputs','histories'],'all store contents and compaction/pack positions followed by a reopen',
  'The test reopens the store once in a fixed place.',
  ['src/fs_log_store.cxx'],[('constructor, close, compact, pack, apply_pack','src/fs_log_store.cxx')])
p('C20','Server state changes only under the server lock, without self-deadlock',
  'Every change of a server\'s term, vote, role, membership and log that is caused by a request, response, timer or API call happens while the server\'s lock is held, the table of members is only changed under its exclusive lock, and no such operation tries to take a non-recursive lock exclusively, or while holding it exclusively, a second time.',
  ['schedules','inputs'],'every path of every entry point',
  'Tests cannot enumerate interleavings; a missing lock shows up only as a rare race.',
  [R,Q,P],[('recur_lock/read_lock/write_lock/auto_lock',R)],[('lock_','server lock',H),('peers_lock_','lock of the member table',H)])
p('C21','An asynchronous result is delivered exactly once',
  'For every order of setting a result, registering a handler and waiting, a registered handler is called exactly once with exactly the result and error that were set, and a waiter returns that result or throws that error and never before one was set.',
  ['schedules','histories'],'all orders and interleavings of one set, one registration and waiters, including spurious wakeups',
  'The test runs a few timings with sleeps.',
  ['include/async.hxx'],[('async_result','include/async.hxx')])
p('C22','Pre-voting disturbs nobody',
  'Handling a pre-vote request never changes the receiver\'s term, vote, role or log. With pre-voting enabled, a follower whose election timer fires neither changes its term nor its vote, and becomes a candidate only after a strict majority of members, itself included and each counted once, have accepted its pre-vote, or when it is alone.',
  HI,'every pre-vote request and every order and duplication of pre-vote responses',
  'One test elects a leader with pre-voting in the good case.',
  [Q,P,R],[('handle_prevote_req',Q),('handle_prevote_resp',P),('request_prevote',R)],[('prevote_state_','pre-votes received',H)])
p('C23','One replication request per member at a time, and no commit news lost',
  'While a leader has a replication or snapshot request to a member outstanding, it starts no other one to that member in the same leadership; the outstanding mark is cleared by the response or the failure of that request and by nothing else (answers to requests of an earlier leadership excepted). When the commit index advances while a member is busy, the member is sent another request as soon as its response arrives.',
  HI,'every order of heartbeats, client requests, commits, responses and failures',
  'Tests do not observe overlapping requests.',
  [R,P,'include/peer.hxx','src/peer.cxx'],[('make_busy/set_free','include/peer.hxx'),('pending commit flag','include/peer.hxx'),('handle_rpc_result','src/peer.cxx')])
p('C24','Snapshots describe the applied prefix; compaction never outruns them',
  'A snapshot is created at an index that has been applied, with that entry\'s true term and a configuration not newer than it, at most one at a time, and only when enabled and due. The log is compacted only after the snapshot completed successfully and keeps at least the configured number of reserved entries behind it; a failed or rejected snapshot compacts nothing and does not block later ones.',
  HI,'all log contents, snapshot distances, reserved counts and outcomes',
  'No test takes a snapshot.',
  [R],[('snapshot_and_compact / on_snapshot_completed',R)],[('snp_in_progress_','a snapshot is being created',H)])
p('C25','Only a leader takes client data, completely and in order',
  'A server that is not leader, or whose leadership lapsed because no quorum answered within twice the election timeout, refuses client data and leaves its log unchanged. A leader appends all entries of an accepted request at consecutive indexes in the given order and reports acceptance to the caller if and only if it appended them.',
  HI,'all roles, lease states, request sizes and API entry points',
  'Tests submit to a healthy leader and check one redirection.',
  [Q,R],[('handle_cli_req / is_leader / replicate_log / send_msg_to_leader',Q)])
p('C26','Pre-commit and rollback notifications match the log exactly',
  'The state machine is told of every application entry that a server adds to its log, with its index and data, and of the rollback of every application entry that is removed from its log by an overwrite, before it is removed; nothing else is announced or rolled back. Log packs that a server receives while it joins a cluster are excepted.',
  HI,'all logs and requests','Tests use a state machine that ignores both notifications.',
  [Q,R],[('handle_append_entries, handle_cli_req',Q),('replicate_log',R)])
p('C27','A cancelled timer task does not run',
  'A scheduled task that is cancelled before it starts executing does not run its action, scheduling it again makes it runnable again, and a task that is not cancelled runs its action once per expiry. After a server steps down, its heartbeats stay silent.',
  HI,'all orders of schedule, cancel, expiry','One test cancels one timer.',
  ['include/delayed_task.hxx','src/asio_service.cxx','include/timer_task.hxx',R],[('delayed_task::execute/cancel/reset','include/delayed_task.hxx'),('asio_service::schedule','src/asio_service.cxx')])
p('C28','A connected majority eventually elects a leader and commits',
  'If a majority of members can communicate and keep running, a leader is eventually elected and submitted entries are eventually applied everywhere.',
  ['schedules','histories'],'all fair schedules','Liveness over unbounded fair executions.',[R,Q,P],[('timers and retries',R)])
p('C29','The file log store survives a crash in the middle of an operation',
  'After a crash at any point of an append, overwrite or compaction the reopened file log store holds the state before or after that operation.',
  ['crash_points'],'all crash points between file writes','Tests never interrupt an operation.',['src/fs_log_store.cxx'],[('backup files in compact','src/fs_log_store.cxx')])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in props:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
