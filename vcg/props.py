"""Which verification roots decide which property."""
import json, os, importlib
import cast
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRUSTED = ['clang 18 parser (AST)', 'vcg (this generator: C++ semantics in interp.py, library models in lib.py)', 'z3 (python3-vt) and cvc5']
ASSUMPTIONS = [
    'C++ standard library containers, smart pointers and mutexes behave as modelled in vcg/lib.py',
    'dynamic memory allocation succeeds; distinct live objects do not overlap',
]

PROPS = {
    'C15': dict(modules=['s_buffer'], assumptions=[
        'source and destination of put(buffer) and get(bufptr) are different buffers',
        'a buffer lives below 2^50 and a char is signed and 8 bits wide, integers are little endian (x86-64)',
        'buffers are created by buffer::alloc/copy (well-formedness is established there and kept by every operation)']),
}


RAFT = [
    'log_store, state_machine, state_mgr, rpc_client, event_listener, logger and scheduler implementations meet the contracts of their interfaces as stated in vcg/s_raft.py (the log store is a sequence; save_state/save_config keep what they are given; callbacks do not re-enter the server)',
    'indexes and terms stay below 2^62; a membership has fewer than 2^20 servers',
    'an operation sees the state that the previous holder of the server lock left: the invariant of vcg/s_raft.py (each clause is proved at every release of the lock by the check of the property it is tagged with)',
    'the constructor establishes the invariant',
]
SRV = ['s_server', 's_bg']
NET = 'guarantees of other servers (election safety, what a confirmed position means) are assumed where stated in vcg/s_raft.py and vcg/s_server.py'
for _p, _x in {
    'C01': [], 'C02': [], 'C03': [], 'C04': [NET + ': a server that stepped down in a term does not later collect a majority in that term'],
    'C05': [], 'C06': [], 'C07': [], 'C08': [NET], 'C09': [],
    'C10': ['the background committer is the only writer of the applied index besides snapshot installation and joining, which are assumed not to overlap a commit round',
            'committed entries stay as they are while the committer runs (C05, C06, C08)'],
    'C11': ['snapshot installation does not overlap a commit round'], 'C12': [], 'C13': [NET], 'C14': [], 'C20': [],
    'C22': [], 'C23': [], 'C24': ['the last snapshot lies within the applied prefix when a new one is considered'], 'C25': [], 'C26': [],
}.items():
    PROPS[_p] = dict(modules=SRV, assumptions=RAFT + _x)


PROPS['C16'] = dict(modules=['s_ser', 's_buffer'], also=['C15'], assumptions=PROPS['C15']['assumptions'] + [
    'serialised objects stay below 2^29 bytes each; the enumerators of log_val_type fit in a byte',
    'the configuration of a snapshot and the payload of an entry or chunk are not nil'])
PROPS['C21'] = dict(modules=['s_async'], assumptions=[
    'at most one handler is registered and at most one result is set per object (the use the library makes of it)',
    'the class template is verified for one instantiation (unsigned long, shared_ptr<exception>); the result type matters only by copying'])
PROPS['C27'] = dict(modules=['s_timer'] + SRV, assumptions=RAFT + [
    'asio::steady_timer: a wait started by async_wait after expires_after calls its handler once, without error only after the expiry'])


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('open: property=%s ' % prop):
                out.append(l.split(' ', 2)[2])
    return out


def build_roots(prop, P):
    out = []
    for m in P['modules']:
        mod = importlib.import_module(m)
        tu = mod.load() if hasattr(mod, 'load') else cast.load(mod.TU)
        tags = {prop, 'aux', 'inv'} | set(P.get('also', []))
        out += mod.roots(tu, tags, prop) if getattr(mod, 'BYPROP', False) else mod.roots(tu, tags)
    return out


def invariants():
    """loop invariants found by tools/mkinv.py: root -> loop -> names of candidates; every run checks them again"""
    p = os.path.join(VERIF, 'vcg', 'invariants.json')
    try:
        return json.load(open(p))
    except (OSError, ValueError):
        return {}
