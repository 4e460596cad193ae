"""Replay / search on the real code: compiles a harness against /repo's current sources and runs it.
Used to confirm a refuted obligation with a failing input and as the bounded stand-in where the
verifier could not decide."""
import os, subprocess, tempfile, shutil, time
REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = os.path.join(VERIF, 'harness')

SER = ['buffer.cxx', 'cluster_config.cxx', 'srv_config.cxx', 'snapshot.cxx', 'snapshot_sync_req.cxx']
RAFT = SER + ['peer.cxx', 'raft_server.cxx', 'raft_server_req_handlers.cxx', 'raft_server_resp_handlers.cxx']
ASIO = ['-DASIO_STANDALONE=1', '-DASIO_HAS_STD_CHRONO=1']
GROUPS = {
    'buffer': dict(src=['h_buffer.cxx'], repo=SER, flags=['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
                                                          '-fno-sanitize=alignment', '-O1', '-g'], props=['C15', 'C16'], procs=4),
    'raft': dict(src=['h_raft.cxx'], repo=RAFT, flags=['-O1', '-g'], procs=8, secs=60,
                 props=['C%02d' % i for i in range(1, 15)] + ['C20', 'C22', 'C23', 'C24', 'C25', 'C26', 'C27']),
    'async': dict(src=['h_async.cxx'], repo=[], flags=['-O1', '-g'], procs=6, secs=30, props=['C21']),
    'timer': dict(src=['h_timer.cxx'], repo=RAFT + ['fs_log_store.cxx', 'asio_service.cxx'], flags=ASIO + ['-O1'], procs=4, secs=20, props=['C27']),
}


def groups_of(prop):
    return [(g, d) for g, d in GROUPS.items() if prop in d['props']]


def build(d, out):
    objs = []
    inc = ['-I', os.path.join(REPO, 'include'), '-I', os.path.join(REPO, 'asio', 'asio', 'include'), '-I', H]
    ps = []
    for i, s in enumerate([os.path.join(H, x) for x in d['src']] + [os.path.join(REPO, 'src', x) for x in d['repo']]):
        o = os.path.join(out, 'o%d.o' % i)
        objs.append(o)
        ps.append((s, subprocess.Popen(['clang++', '-std=gnu++17', '-w', '-pthread', '-c', s, '-o', o] + inc + d['flags'],
                                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    for s, p in ps:
        _, e = p.communicate()
        if p.returncode:
            raise RuntimeError('does not compile: %s: %s' % (s, e.decode(errors='replace')[:300]))
    exe = os.path.join(out, 'h')
    r = subprocess.run(['clang++', '-pthread', '-o', exe] + objs + d['flags'] + d.get('libs', []), stderr=subprocess.PIPE)
    if r.returncode:
        raise RuntimeError('does not link: ' + r.stderr.decode(errors='replace')[:300])
    return exe


def search(prop, hints, seed, secs, tier='quick'):
    gs = groups_of(prop)
    if not gs:
        return dict(ran=False, note='no replay harness for this property')
    out, err = None, None
    for k, (g, d) in enumerate(gs):
        t = time.time()
        try:
            r = search_group(prop, g, d, hints, seed, secs / (len(gs) - k), tier)
        except RuntimeError as e:
            err = e
            continue
        secs = max(20, secs - (time.time() - t))
        if out is None or r['fail']:
            out = r
        else:
            out['cases'] += r['cases']
            out['bound'] += '; ' + r['bound']
            out['harness'] += ', ' + g
        if r['fail']:
            break
    if out is None:
        raise err
    return out


def search_group(prop, g, d, hints, seed, secs, tier):
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='vreplay')
    try:
        exe = build(d, tmp)
        left = max(10, secs - (time.time() - t0) - 5)
        run = min(left, d.get('secs', 40) * (4 if tier == 'thorough' else 1))
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0',
                   TSAN_OPTIONS='halt_on_error=1')
        nums = set()
        for h in hints:
            for v in h.values():
                try:
                    if -2 ** 63 <= int(v) < 2 ** 64:
                        nums.add(int(v))
                except ValueError:
                    pass
        hf = os.path.join(tmp, 'hints')
        open(hf, 'w').write('\n'.join(str(v) for v in sorted(nums)[:200]) + '\n')
        ps = []
        for k in range(d.get('procs', 4)):
            w = os.path.join(tmp, 'w%d' % k)
            os.mkdir(w)
            of = open(os.path.join(w, 'out'), 'wb')
            ps.append((w, subprocess.Popen([exe, prop, str(seed * 1000 + k), str(int(run)), hf], cwd=w, stdout=of,
                                           stderr=subprocess.STDOUT, env=env, start_new_session=True)))
        fail, cases = None, 0
        end = time.time() + run + 30
        for w, p in ps:
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()
            txt = open(os.path.join(w, 'out'), errors='replace').read()
            for l in txt.split('\n'):
                if l.startswith('CASES '):
                    cases += int(l.split()[1])
                if l.startswith('FAIL property=%s ' % prop) and fail is None:
                    fail = l
            if fail is None and ('ERROR: AddressSanitizer' in txt or 'runtime error:' in txt) and d.get('san'):
                if prop in d['san']:
                    i = max(txt.find('ERROR: AddressSanitizer'), 0) or txt.find('runtime error:')
                    fail = 'sanitizer: ' + txt[max(0, i - 100):i + 600]
        return dict(ran=True, harness=g, seed=seed, cases=cases, seconds=round(time.time() - t0, 1), fail=fail,
                    bound='%d processes x %d s of generated cases' % (d.get('procs', 4), run))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
