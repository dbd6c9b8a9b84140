#!/usr/bin/env python3
"""Demonstration of one planted bug: builds the library of the current
directory over the Win32 simulator beside this file, runs the workload 'demo'
(demo.c) under many schedules, and exits 1 if its assertions ever fail."""
import os, sys, shutil, tempfile, time, threading
H = os.path.dirname(os.path.abspath(__file__))
os.environ['VERIF_REPO'] = os.getcwd()
sys.path.insert(0, H)
import run
def main():
    secs = float(os.environ.get('DEMO_SECS', sys.argv[1] if len(sys.argv) > 1 else '60'))
    modes = sys.argv[2].split(',') if len(sys.argv) > 2 else ['c', 'cxx']
    bd = tempfile.mkdtemp(prefix='demo.')
    try:
        bins = {m: run.build(bd, m, ['demo.c']) for m in modes}
        end = time.time() + secs; n = [0]; eps = [0]; bad = []; lock = threading.Lock()
        def work():
            while not bad and time.time() < end:
                with lock: n[0] += 1; k = n[0]
                r = run.run_job(bins[modes[k % len(modes)]], 'demo', 777 + k, 1000, [], 250)
                if 'viol' in r: bad.append(r['viol'])
                elif 'res' not in r: bad.append({'kind': 'error', 'oracle': 'run', 'msg': str(r)[:500]})
                else: eps[0] += r['res']['episodes']
        th = [threading.Thread(target=work) for _ in range(8)]
        [t.start() for t in th]; [t.join() for t in th]
        if bad: print('FAIL after %d episodes: %s/%s %s' % (eps[0], bad[0]['kind'], bad[0]['oracle'], bad[0]['msg'][:500])); return 1
        print('ok: %d episodes' % eps[0]); return 0
    finally: shutil.rmtree(bd, ignore_errors=True)
sys.exit(main())
