#!/usr/bin/env python3
"""Apply one textual mutation at a time to a scratch copy of /repo and run
checks of the analyser on it.  usage: mutate.py FILE [check...]
FILE holds blocks separated by lines of '===':
  first line:  <check ids, comma separated> <path>
  then the old text, a line '---', and the new text.
A check listed is expected to report a violation ('!' before the first line:
expected to stay quiet)."""
import os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
gmv = os.environ.get('GMV', '/tmp/gmv')
blocks = open(sys.argv[1]).read().split('\n===\n')
ALL = [l.split()[0] for l in subprocess.run([gmv, 'list'], capture_output=True, text=True).stdout.splitlines()]
only = set(sys.argv[2:])
def one(b):
    b = b.strip('\n')
    head, rest = b.split('\n', 1)
    quiet = head.startswith('!')
    ids, path = head.lstrip('!').split()[:2]
    pairs = []
    for part in rest.split('\n--&--\n'):
        pairs.append(part.split('\n---\n') if '\n---\n' in part else (part[:-4], ''))
    new = pairs[0][1]
    if ids == 'ALL':
        own = {'sm2/sm2.go': range(1, 12), 'sm2/keyexchange.go': range(1, 12), 'sm3/': range(12, 16), 'sm4/': range(16, 19),
               'util/': [1, 2, 4, 6, 7, 9, 10, 32], 'cryptobyte/': range(28, 32), 'sm2/cert': [8] + list(range(22, 28))}
        local = set('C%02d' % i for r in own.values() for i in r)
        mine = set('C%02d' % i for k, r in own.items() if path.startswith(k) for i in r)
        ids = ','.join(x for x in ALL if x in mine or x not in local)
    d = tempfile.mkdtemp(prefix='gmvmut')
    out = []
    try:
        subprocess.run(['cp', '-a', '/repo/.', d], check=True)
        p = os.path.join(d, path)
        s = open(p).read()
        for old, nw in pairs:
            if s.count(old) < 1:
                return ['NOT FOUND %s: %r' % (path, old[:80])]
            s = s.replace(old, nw, 1)
        open(p, 'w').write(s)
        env = dict(os.environ, GOFLAGS='', GOCACHE='/tmp/gocache')
        r = subprocess.run('. /opt/vp/env.sh; cd %s && go build ./... 2>&1 | head -5' % d, shell=True, capture_output=True, text=True, env=env)
        if r.stdout.strip():
            return ['DOES NOT BUILD %s: %s' % (path, r.stdout[:300])]
        for i in ids.split(','):
            if only and i not in only: continue
            v = tempfile.mkdtemp(prefix='gmvv')
            shutil.copy('/verif/known-findings.txt', v)
            r = subprocess.run(['timeout', '200', gmv, 'check', i], capture_output=True, text=True, env=dict(os.environ, GMV_REPO=d, GMV_VERIF=v, GMV_GB='4', GMV_SECS='180'))
            alarm = r.returncode != 0
            tag = 'ok' if alarm != quiet else ('FALSE ALARM' if quiet else 'MISSED')
            if tag == 'ok' and quiet: continue
            if r.returncode == 124: tag += ' TIMEOUT'
            lines = [l for l in r.stdout.splitlines() if not l.startswith('VIOLATION') and not l.startswith('OK')]
            out.append('%s %s %s %r | %s' % (tag, i, path, new[:70], (lines[0][:160] if lines else '')))
            shutil.rmtree(v)
    finally:
        shutil.rmtree(d)
    return out or ['ok %s %r' % (path, new[:70])]
with cf.ThreadPoolExecutor(7) as ex:
    for o in ex.map(one, [b for b in blocks if b.strip()]):
        for l in o: print(l)
