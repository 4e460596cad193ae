"""What each check claims (level notes) and why the rest is not applicable."""
RAFT = ' Every request, response, timer and background entry point is executed symbolically from every state that meets the server invariant; calls of request_append_entries(peer), has_conf_after, reconfigure, get_server and snapshot_and_compact go by contracts that are proved too. Assumes the interface contracts of log store, state machine, state manager, rpc and scheduler, and that the constructor establishes the invariant.'
CLAIMED = {
 'C21': 'All schedules: every operation is proved against a lock invariant with a ghost protocol state, other threads acting wherever the lock is free; the call of the handler is owed by exactly one operation. Assumes one handler and one result per object.',
 'C27': 'All states: sequences of the real operations of delayed_task, timer_task, the scheduler interface and asio_service from arbitrary states; heartbeats of the server at every entry point. Assumes the contract of asio::steady_timer.' + RAFT,
 'C01': 'All inputs and states: at every release of the server lock the term has not decreased and equals the saved one, and every message and answer is checked at the send.' + RAFT,
 'C02': 'All inputs and states: a vote given is kept for the term, saved before it is reported.' + RAFT,
 'C03': 'All inputs and states: grants of votes and pre-votes imply the candidate position is up to date; requests sent state the true position.' + RAFT,
 'C04': 'All inputs and states: becoming leader implies a strict majority of distinct members in a ghost set of grants of this term.' + RAFT,
 'C05': 'All inputs and states: full functional postcondition of the append handler over a ghost log, loops by invariants.' + RAFT,
 'C06': 'All inputs and states: every log write of a leader is at the end and carries its term.' + RAFT,
 'C07': 'All inputs and states: contents of every append request sent against the ghost log.' + RAFT,
 'C08': 'All inputs and states: every rise of the commit index of a leader implies a majority of confirmed positions and an entry of its own term.' + RAFT,
 'C09': 'All inputs and states: the commit index of a follower rises to at most what the request verified and never falls.' + RAFT,
 'C10': 'All inputs and states: the committing loop by invariants, hand-over in order, once, none skipped.' + RAFT,
 'C11': 'All inputs and states: postcondition of snapshot installation.' + RAFT,
 'C12': 'All inputs and states: contents of every chunk sent and the bookkeeping of the transfer.' + RAFT,
 'C13': 'All inputs and states: every membership entry written, by whom, when and how it differs.' + RAFT,
 'C14': 'All inputs and states: reconfigure makes the member table exactly the named servers; committed memberships are saved and put in force.' + RAFT,
 'C20': 'All paths: lock state is tracked along every path of every entry point; writes of protected state need the lock.' + RAFT,
 'C22': 'All inputs and states: pre-vote handling, counting by a ghost set.' + RAFT,
 'C23': 'All inputs and states: busy marks equal outstanding requests at every release of the lock; follow-up requests owed are made.' + RAFT,
 'C24': 'All inputs and states: when and with what a snapshot is created, when the log is compacted.' + RAFT,
 'C25': 'All inputs and states: acceptance if and only if all entries were appended in order.' + RAFT,
 'C26': 'All inputs and states: notifications against every write of the ghost log.' + RAFT,
 'C16': 'All inputs: serialise and deserialise pairs are proved against contracts over buffer segments; cluster configurations with any number of servers by loop invariants. The buffer operations enter by the contracts that the check of C15 proves; those obligations are rerun here. Assumes objects below 2^29 bytes.',
 'C15': 'All inputs: every public buffer operation is proved against its full postcondition (value, position, frame, memory bounds, failure leaves everything unchanged) over a byte memory. Trusts the VC generator, clang and the solvers; assumes source and destination buffers are distinct and x86-64 representation.',
}
NA = {
 'C28': 'liveness under partial synchrony: contracts of single functions bound safety of each step, not eventual progress of a network of them; no contract within reach expresses it',
 'C29': 'power-loss behaviour depends on the order in which the operating system writes back stdio streams; the files are only modelled through stdio calls, so no contract on this code can decide it',
}
