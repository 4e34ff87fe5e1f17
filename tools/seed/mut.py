#!/usr/bin/env python3
"""mut.py CHECK[,CHECK..]: blocks on stdin as for mkpatch.py, applied to a scratch copy; runs the checks on it (compile errors shown)."""
import os, re, subprocess, sys
W = os.environ.get('MUT', '/tmp/mut') + 'tree'
if not os.path.isdir(W):
    subprocess.run(['git', 'clone', '-q', '/repo', W]); subprocess.run(['cp', '/repo/Cargo.lock', W + '/'])
subprocess.run(['git', '-C', W, 'fetch', '-q', '/repo', 'HEAD']); subprocess.run(['git', '-C', W, 'checkout', '-q', '-f', 'FETCH_HEAD'])
d = subprocess.run(['git', '-C', '/repo', 'diff', 'HEAD'], capture_output=True, text=True).stdout
if d:
    subprocess.run(['git', '-C', W, 'apply'], input=d, text=True, check=True)
txt = sys.stdin.read()
for blk in txt.split('%%%%%\n') if txt.strip() else []:
    head, _, rest = blk.partition('\n')
    f = head.strip().split()[0]; nth = head.strip().split()[1:]
    a, b = rest.split('=====\n')
    p = W + '/' + f; s = open(p).read()
    if nth:
        parts = s.split(a); k = int(nth[0]); assert len(parts) > k, (f, len(parts))
        s = a.join(parts[:k]) + b + a.join(parts[k:])
    else:
        assert s.count(a) == 1, (f, s.count(a), a)
        s = s.replace(a, b)
    open(p, 'w').write(s)
e = dict(os.environ, SCC_REPO=W, SCC_CACHE=os.environ.get('MUT', '/tmp/mut') + '-cache')
for c in sys.argv[1].split(','):
    r = subprocess.run(['python3', '/verif/sa/check.py', c], env=e, capture_output=True, text=True, cwd='/verif')
    o = (r.stdout + r.stderr).splitlines()
    keys = [m.group(1) for x in o for m in [re.search(r'\[([^\]]+)\]', x)] if m]
    print('%s: exit %d' % (c, r.returncode), ('%d keys: ' % len(keys) + '; '.join(keys)[:300]) if r.returncode == 1 else '')
    if os.environ.get('KEYS') and r.returncode == 1: continue
    print('\n'.join(x[:260] for x in o if not x.startswith('    path'))[:int(os.environ.get('MAXOUT', '900'))])
