"""selftest.py [RUNS] [IDS...]: every run must give the same digest again, with other worker counts; under another
hash seed the check must still hold (digests may then differ: the code under test iterates over a set of prefixes, so it
takes another number of steps)"""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
runs = int(sys.argv[1]) if len(sys.argv) > 1 else 300
ids = sys.argv[2:] or ['C%02d' % k for k in range(1, 18)]
bad = 0
with tempfile.TemporaryDirectory() as tmp:
    for pid in ids:
        seen = []
        for seed in ('1', '77'):
            base = None
            for workers, hashseed in ((8, '0'), (3, '0'), (8, '0'), (5, '4242')):
                out = os.path.join(tmp, 'd')
                env = dict(os.environ, VERIF_HASHSEED=hashseed, VERIF_SEED=seed)
                r = subprocess.run([sys.executable, HERE + '/check.py', pid, '--runs', str(runs), '--workers', str(workers),
                                    '--seed', seed, '--digests', out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
                if r.returncode != 0:
                    print(pid, 'exit', r.returncode, r.stdout.decode()[-500:])
                    bad += 1
                    break
                with open(out) as f:
                    d = json.load(f)
                if base is None:
                    base = d
                elif d != base and hashseed == '0':
                    diff = [k for k in base if d.get(k) != base[k]]
                    print(pid, 'seed', seed, 'workers', workers, 'hash', hashseed, ': %d of %d runs differ, e.g. %r' % (
                        len(diff), len(base), diff[:5]))
                    bad += 1
            seen.append(len(base or {}))
        print(pid, 'done', seen, flush=True)
sys.exit(1 if bad else 0)
