#!/usr/bin/env python3
"""mkseed.py <id> <property> <file> <old> <new> <needs> <breaks> : writes patch.diff+meta.json by applying a text replacement in a scratch clone.
(old/new may be given as @file)"""
import sys, os, subprocess, json, shutil, tempfile
sid, prop, f, old, new, needs, breaks = sys.argv[1:8]
rd = lambda x: open(x[1:]).read() if x.startswith('@') else x
pairs = [(f, rd(old), rd(new))]
ex = sys.argv[8:]
while ex:
    pairs.append((ex[0], rd(ex[1]), rd(ex[2])))
    ex = ex[3:]
t = tempfile.mkdtemp(prefix='seed')
subprocess.check_call(['git', 'clone', '-q', '/repo', t + '/r'])
for f, o, n in pairs:
    p = t + '/r/' + f
    s = open(p).read()
    assert s.count(o) == 1, (f, s.count(o), o)
    open(p, 'w').write(s.replace(o, n))
d = '/verif/seeded/' + sid
os.makedirs(d, exist_ok=True)
open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', t + '/r', 'diff']).decode())
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
shutil.rmtree(t)
print(open(d + '/patch.diff').read())
