#!/usr/bin/env python3
"""mkseed.py [ids]: writes /verif/seeded/<id>/ from tools/seeds/<id>.py.
Each spec defines prop, needs, breaks, edits=[(file, old, new[, occurrence])]
and demo (C source for the simulator bundle) or wine (C source linked with the
Wine build) or cxx_only/secs."""
import os, re, sys, json, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'tools', 'seeds')
for fn in sorted(os.listdir(S)):
    if not fn.endswith('.py'): continue
    id = fn[:-3]
    if sys.argv[1:] and id not in sys.argv[1:]: continue
    g = {}; exec(open(os.path.join(S, fn)).read(), g)
    wt = tempfile.mkdtemp(prefix='seed.')
    try:
        subprocess.run('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.email=a -c user.name=a commit -qm x' % (wt, wt), shell=True, check=True)
        for e in g['edits']:
            f, old, new = e[:3]; n = e[3] if len(e) > 3 else 0
            p = os.path.join(wt, f); s = open(p, errors='surrogateescape', newline='').read(); crlf = '\r\n' in s
            s = s.replace('\r\n', '\n')
            rx = re.compile(r'\s+'.join(re.escape(x) for x in old.split())); ms = list(rx.finditer(s))
            if n >= len(ms): sys.exit('%s: %s: pattern not found %r (%d)' % (id, f, old, len(ms)))
            for q in reversed(ms if n == -1 else [ms[n]]): s = s[:q.start()] + new + s[q.end():]
            if crlf: s = s.replace('\n', '\r\n')
            open(p, 'w', errors='surrogateescape', newline='').write(s)
        d = os.path.join(V, 'seeded', id); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        diff = subprocess.run(['git', '-C', wt, 'diff'], stdout=subprocess.PIPE, check=True).stdout
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
        json.dump(dict(property=g['prop'], needs=g['needs'], what_it_breaks=g['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        if 'wine' in g:
            open(os.path.join(d, 'demo.c'), 'w').write(g['wine'])
            shutil.copy(os.path.join(V, 'tools', 'winedemo.sh'), os.path.join(d, 'demo.sh'))
        else:
            open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py" %s %s\n' % (g.get('secs', 60), g.get('modes', 'c,cxx')))
            os.makedirs(os.path.join(d, 'work')); open(os.path.join(d, 'work', 'demo.c'), 'w').write(g['demo'])
            for h in ('wk.h', 'wk_pup.h', 'wk_age.h'): shutil.copy(os.path.join(V, 'work', h), os.path.join(d, 'work'))
            shutil.copytree(os.path.join(V, 'sim'), os.path.join(d, 'sim'), ignore=shutil.ignore_patterns('__pycache__'))
            shutil.copy(os.path.join(V, 'run.py'), d); shutil.copy(os.path.join(V, 'tools', 'demo.py'), d)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        print(id, 'written,', len(diff), 'byte patch')
    finally: shutil.rmtree(wt, ignore_errors=True)
