#!/usr/bin/env python3-vt
"""Driver: decide one property on /repo's current tree.

exit 0  every obligation discharged (or, where an obligation could not be decided, nothing found by
        the bounded stand-in, which is then labelled bounded in the evidence)
exit 1  + VIOLATION line: an obligation is refuted, or the replay search found a failing input."""
import threading, multiprocessing.connection
import sys, os, time, json, multiprocessing as mp, traceback, hashlib, subprocess, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get('VERIF_REPO', '/repo')

import props


def run_root(args):
    i, tmo, deadline = args
    import engine
    r = ROOTS[i]
    try:
        res = engine.verify(r, deadline=deadline, tmo=tmo, hints=props.invariants().get(r.name), maxpaths=r.maxpaths if hasattr(r, 'maxpaths') else 4000)
    except MemoryError:
        res = dict(name=r.name, results={}, error='memory', secs=0, solver=0, checks=0, paths=0, kinds={}, inlined=[],
                   contracts=[], models=[], unsupported=[], loops=[], backends={})
    except Exception as e:
        res = dict(name=r.name, results={}, error='internal: %s %s' % (type(e).__name__, e), secs=0, solver=0, checks=0, paths=0,
                   kinds={}, inlined=[], contracts=[], models=[], unsupported=[], loops=[], backends={},
                   trace=traceback.format_exc()[-1500:])
    # keep only plain data
    out = dict(res)
    out['results'] = [dict(func=x.func, tag=x.tag, label=x.label, n=x.n, ok=x.ok, refuted=x.refuted, unknown=x.unknown,
                           status=x.status(), loc=x.loc, detail=x.detail) for x in res['results'].values()]
    out['loops'] = [dict(where=str(l.get('where')), kept=len(l.get('kept', [])), key=l.get('key'), names=l.get('kept_names')) for l in res['loops']]
    out['unsupported'] = [str(u) for u in res['unsupported']]
    out['inlined'] = [str(u) for u in res['inlined']]
    out['contracts'] = [str(u) for u in res['contracts']]
    out['models'] = [str(u) for u in res['models']]
    return i, out


def worker(q, rq, tmo, deadline):
    while True:
        i = q.get()
        if i is None:
            return
        rq.put(('start', i, os.getpid()))
        rq.put(('done',) + run_root((i, tmo, deadline)))


class Probe:
    """the search for a failing input, started beside proofs that take unusually long"""

    def __init__(self, fn, at):
        self.fn, self.at, self.th, self.res = fn, at, None, None

    def run(self):
        try:
            self.res = self.fn()
        except Exception as e:
            self.res = dict(ran=False, note='%s: %s' % (type(e).__name__, e))

    def tick(self):
        if self.th is None and time.time() > self.at:
            self.th = threading.Thread(target=self.run, daemon=True)
            self.th.start()
        return bool(self.res and self.res.get('fail'))

    def wait(self):
        if self.th is not None:
            self.th.join(300)
        return self.res


def verify_all(roots, tmo, deadline, jobs, probe=None):
    """one forked process per root, at most `jobs` at a time; a process past the deadline is ended"""
    global ROOTS
    ROOTS = roots
    ctx = mp.get_context('fork')
    pend = list(range(len(roots)))
    pend.sort(key=lambda i: -getattr(roots[i], 'cost', 1))
    running, out = {}, {}
    while pend or running:
        if probe is not None and probe.tick():
            for i, (p, a) in running.items():
                p.kill()
                p.join(5)
            for i in list(running) + pend:
                out[i] = blank(roots[i].name, 'stopped: a failing input was found')
            break
        while pend and len(running) < jobs:
            i = pend.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, i, tmo, deadline))
            p.start()
            b.close()
            running[i] = (p, a)
        done = []
        mp.connection.wait([a for _, a in running.values()], timeout=0.5)
        for i, (p, a) in running.items():
            if a.poll():
                try:
                    out[i] = a.recv()
                except EOFError:
                    out[i] = blank(roots[i].name, 'the verifier process ended')
                p.join(5)
                done.append(i)
            elif not p.is_alive():
                out[i] = blank(roots[i].name, 'the verifier process ended')
                done.append(i)
            elif time.time() > deadline + 15:
                p.kill()
                p.join(5)
                out[i] = blank(roots[i].name, 'budget: time')
                done.append(i)
        for i in done:
            running.pop(i)
    return [out[i] for i in sorted(out)]


def blank(name, err):
    return dict(name=name, results=[], error=err, secs=0, solver=0, checks=0, paths=0, kinds={}, inlined=[], contracts=[],
                models=[], unsupported=[], loops=[], backends={})


def child(conn, i, tmo, deadline):
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass
    r = run_root((i, tmo, deadline))[1]
    conn.send(r)
    conn.close()
    os._exit(0)


def main():
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    verbose = '-v' in sys.argv
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    P = props.PROPS[prop]
    budget = P.get('budget', 420) if tier == 'quick' else 4 * P.get('budget', 420)
    deadline = t0 + budget
    tmo = P.get('tmo', 6000) * (1 if tier == 'quick' else 3)
    jobs = int(os.environ.get('VERIF_JOBS', '8'))
    errors = []
    roots = []
    try:
        roots = props.build_roots(prop, P)
    except Exception as e:
        errors.append('front end: %s: %s' % (type(e).__name__, e))
        if verbose:
            traceback.print_exc()
    only = [a[2:] for a in sys.argv[2:] if a.startswith('r=')]
    if only:
        roots = [r for r in roots if any(o in r.name for o in only)]
    import replay
    hard = 840 if tier == 'quick' else 4000
    probe = Probe(lambda: replay.search(prop, [], seed + 7, P.get('search', 150), tier), t0 + P.get('probe', 110) * (1 if tier == 'quick' else 4))
    res = verify_all(roots, tmo, deadline, jobs, probe) if roots else []
    ob = []
    for r in res:
        if r['error']:
            errors.append('%s: %s' % (r['name'], r['error']))
        for x in r['results']:
            if x['tag'] in (prop, 'aux', 'inv'):
                ob.append(x)
    mine = [x for x in ob if x['tag'] == prop]
    refuted = [x for x in mine if x['status'] == 'refuted']
    open_ = [x for x in ob if x['status'] != 'proved']
    if roots and not mine and not errors:
        errors.append('no obligation was generated for the property')
    want = P.get('expect', [])
    missing = [w for w in want if not any(w in x['func'] + ': ' + x['label'] for x in mine)]
    if missing and not errors:
        errors.append('expected obligations were not generated: ' + '; '.join(missing[:5]))
    if verbose:
        for r in res:
            print('%-46s paths=%-4d secs=%-6.1f solver=%-6.1f ob=%d %s %s' % (r['name'], r['paths'], r['secs'], r['solver'],
                  len([x for x in r['results'] if x['tag'] in (prop, 'aux', 'inv')]), r['error'] or '', r['kinds']))
            if r.get('trace'):
                print(r['trace'])
        for x in open_:
            print('   ', x['status'], x['tag'], x['func'], '|', x['label'], 'n=%d ref=%d unk=%d' % (x['n'], x['refuted'], x['unknown']), x['loc'])
            if x['detail']:
                print('       ', str(x['detail'].get('note'))[:200], str(x['detail'].get('goal'))[:300].replace('\n', ' '))
    status, viol, bounded = 0, None, None
    if open_ or errors or tier == 'thorough':
        # look for a failing input on the real code
        hints = [dict(x['detail'].get('model') or {}) for x in refuted if x['detail']]
        left = max(30, min(P.get('search', 150) * (1 if tier == 'quick' else 4), hard - (time.time() - t0)))
        bounded = probe.wait()
        if not (bounded and bounded.get('fail')):
            try:
                bounded = replay.search(prop, hints, seed, left, tier)
            except Exception as e:
                bounded = dict(ran=False, note='%s: %s' % (type(e).__name__, e))
        if bounded.get('fail'):
            viol = 'input'
        elif refuted:
            viol = 'obligation'
    if viol:
        rd = os.path.join(VERIF, 'replays')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, prop + '.json')
        json.dump(dict(property=prop, failed_obligations=[dict(function=x['func'], obligation=x['label'], at=x['loc'], detail=x['detail'])
                                                          for x in (refuted or open_)], replay=bounded, errors=errors), open(path, 'w'), indent=1, default=str)
        for x in (refuted or open_)[:6]:
            print('failed obligation: %s: %s (at %s)' % (x['func'], x['label'], x['loc']))
        if viol == 'input':
            print('failing input on the real code: %s' % str(bounded['fail'])[:500])
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if viol == 'input' else ' no-failing-input-found'))
        status = 1
    for k in props.known_findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    fns = sorted(set(f for r in res for f in r['inlined']) | set(f for r in res for f in r['contracts']))
    disc = [x for x in ob if x['status'] == 'proved']
    be = {}
    for r in res:
        for k, v in r['backends'].items():
            be[k] = be.get(k, 0) + v
    cov = dict(obligations=len(ob), discharged=len(disc), property_obligations=len(mine),
               property_obligations_discharged=len([x for x in mine if x['status'] == 'proved']),
               proof_instances=sum(x['n'] for x in ob), paths=sum(r['paths'] for r in res), roots=[r['name'] for r in res],
               functions_under_contract=fns, used_by_contract_only=sorted(set(f for r in res for f in r['contracts'])),
               back_ends=be, solver_seconds=round(sum(r['solver'] for r in res), 1), loops=sum(len(r['loops']) for r in res),
               checker_cmd='python3-vt vcg/check.py %s' % prop, trusted_base=props.TRUSTED + P.get('trusted', []),
               not_discharged=[dict(function=x['func'], obligation=x['label'], status=x['status']) for x in open_], errors=errors,
               labels=sorted(set('%s: %s' % (x['func'], x['label']) for x in mine)))
    if bounded is not None:
        cov['bounded_stand_in'] = dict((k, v) for k, v in bounded.items())
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', coverage=cov,
              assumptions=props.ASSUMPTIONS + P.get('assumptions', []) + ['library model used: ' + m for m in sorted(set(m for r in res for m in r['models']))],
              wall_s=round(time.time() - t0, 1), violations=1 if viol else 0)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    print('%s: %d/%d obligations discharged (%d of the property, %d roots, %.0f s)%s' % (
        prop, len(disc), len(ob), len(mine), len(res), time.time() - t0,
        '' if not (open_ or errors) else '; NOT decided by proof: ' + '; '.join(
            ['%s: %s [%s]' % (x['func'], x['label'], x['status']) for x in open_[:4]] + errors[:4])))
    sys.stdout.flush()
    return status


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        # an internal error of the check is no evidence against the code
        rc = 0
    sys.stdout.flush()
    os._exit(rc)
