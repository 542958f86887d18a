#!/usr/bin/env python3
"""Applies changes to scratch copies of /repo and lists which checks report them (development aid).

mut.py [-j N] [-c C01,C02] FILE...   a FILE is a patch, or a Python file with M = [(name, file, old, new[, count]) ...]
"""
import re, os, subprocess, sys, shutil, json
from concurrent.futures import ThreadPoolExecutor
import queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
J, only = 6, None
while args and args[0].startswith('-'):
    o = args.pop(0)
    if o == '-j':
        J = int(args.pop(0))
    elif o == '-c':
        only = args.pop(0).split(',')
    elif o == '-m':
        pass
muts = []
for a in args:
    name, _, pick = a.partition('@')
    if name.endswith(('.diff', '.patch')):
        muts.append((os.path.basename(os.path.dirname(name)) or name, 'patch', os.path.abspath(name)))
    else:
        g = {}
        exec(open(name).read(), g)
        for m in g['M']:
            if not pick or pick in m[0]:
                muts.append((m[0], 'edit', m[1:]))
checks = only or [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
q = queue.Queue()
J = min(J, max(1, len(muts)))
for i in range(J):
    d = os.environ.get('VP_MUT', '/tmp/w') + str(i)
    os.makedirs(d, exist_ok=True)
    subprocess.run('rsync -a --delete --exclude target --exclude .git /tmp/clean/ %s/repo/ 2>/dev/null || (rm -rf %s/repo; cp -a /tmp/clean %s/repo)' % (d, d, d), shell=True)
    subprocess.run('mkdir -p %s/verif; rm -rf %s/verif/checks %s/verif/engine %s/verif/driver; cp -a %s/checks %s/engine %s/driver %s/check.py %s/known_findings.json %s/verif/' % (d, d, d, d, V, V, V, V, V, d), shell=True)
    q.put(d)


def one(m):
    d = q.get()
    try:
        name, kind, x = m
        edits = []
        if kind == 'edit':
            es = x[0] if isinstance(x[0], list) else [x]
            for e in es:
                f, old, new = e[:3]
                p = d + '/repo/' + f
                s = open(p).read()
                k = s.count(old)
                if not k and '\n' in old:
                    # the quoted text without the comments of the file
                    gap = r'[ \t]*(?://[^\n]*)?\n(?:[ \t]*(?://[^\n]*)?\n)*'
                    rx = gap.join(re.escape(l.rstrip()) for l in old.split('\n') if l.strip() or l == old.split('\n')[-1])
                    m = list(re.finditer(rx, s))
                    k = len(m)
                    if k == 1:
                        old = m[0].group(0)
                want = e[3] if len(e) > 3 else 1
                if k != want and want != -1:
                    for pp, ss in reversed(edits):
                        open(pp, 'w').write(ss)
                    return name, 'NOT APPLICABLE: %d occurrences of %r in %s' % (k, old[:60], f)
                edits.append((p, s))
                open(p, 'w').write(s.replace(old, new))
        else:
            r = subprocess.run('cd %s/repo && patch -p1 -s < %s' % (d, x), shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                subprocess.run('rsync -a --delete --exclude target --exclude .git /tmp/clean/ %s/repo/' % d, shell=True)
                return name, 'DOES NOT APPLY ' + r.stdout.decode()[:200]
        res = {}
        env = dict(os.environ, VP_REPO=d + '/repo')
        r = subprocess.run(['python3', 'engine/extract.py'], cwd=d + '/verif', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            out = 'NO BUILD ' + ' | '.join([l for l in r.stdout.decode().split('\n') if l.startswith('error')][:3])
        else:
            outs = []
            for c in checks:
                try:
                    r = subprocess.run(['python3', 'check.py', c], cwd=d + '/verif', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
                    t = r.stdout.decode()
                    if r.returncode:
                        ls = [l.strip()[:150] for l in t.split('\n') if l.startswith('  ')]
                        outs.append('%s(%s)%s' % (c, r.returncode, ' {' + (ls or [''])[0] + '}'))
                except subprocess.TimeoutExpired:
                    outs.append(c + '(TIMEOUT)')
            out = ' ;; '.join(outs) or 'QUIET'
        if kind == 'edit':
            for pp, ss in reversed(edits):
                open(pp, 'w').write(ss)
        else:
            subprocess.run('rsync -a --delete --exclude target --exclude .git /tmp/clean/ %s/repo/' % d, shell=True)
        return name, out
    finally:
        q.put(d)


with ThreadPoolExecutor(J) as ex:
    for name, out in ex.map(one, muts):
        print('%-28s %s' % (name, out), flush=True)
