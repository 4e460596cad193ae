#!/usr/bin/env python3-vt
"""search for the loop invariants of the given roots (all when none is named) and record them in vcg/invariants.json.
usage: mkinv.py MODULE [ROOT-SUBSTRING ...]   (env TAGS=C05,... BUD=seconds)"""
import sys, os, json, time, fcntl
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'vcg')); sys.setrecursionlimit(20000)
import importlib, engine, multiprocessing as mp
mod = importlib.import_module(sys.argv[1])
tu = mod.load()
tags = (set(os.environ['TAGS'].split(',')) | {'aux', 'inv'}) if os.environ.get('TAGS') else None
rs = [r for r in (mod.roots(tu, tags, None) if getattr(mod, "BYPROP", False) else mod.roots(tu, tags)) if len(sys.argv) < 3 or any(a in r.name for a in sys.argv[2:])]
P = os.path.join(V, 'vcg', 'invariants.json')
def one(i):
    r = rs[i]
    res = engine.verify(r, deadline=time.time() + float(os.environ.get('BUD', '600')), tmo=int(os.environ.get('TMO', '6000')))
    engine.report(res); sys.stdout.flush()
    d = {}
    for l in res['loops']:
        d.setdefault(l['key'], set()).update(l['kept_names'])
    if os.environ.get('NOSAVE'): return
    with open(P + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        try: old = json.load(open(P))
        except (OSError, ValueError): old = {}
        if d: old[r.name] = {k: sorted(v) for k, v in sorted(d.items())}
        else: old.pop(r.name, None)
        json.dump(old, open(P, 'w'), indent=0, sort_keys=True)
ctx = mp.get_context('fork')
run = []
for i in range(len(rs)):
    while len([p for p in run if p.is_alive()]) >= int(os.environ.get('JOBS', '4')): time.sleep(0.3)
    p = ctx.Process(target=one, args=(i,)); p.start(); run.append(p)
for p in run: p.join()
