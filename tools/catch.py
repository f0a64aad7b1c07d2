"""catch.py [ids]: runs the property's quick check against every seeded change, in scratch copies (SUREAL_REPO). Development tool."""
import sys, os, json, subprocess, shutil, time
from concurrent.futures import ThreadPoolExecutor
def one(i):
    m = json.load(open('/verif/seeded/%s/meta.json' % i)); W = '/tmp/catch/%s' % i
    shutil.rmtree(W, ignore_errors=True); os.makedirs('/tmp/catch', exist_ok=True)
    subprocess.run('cp -a /repo %s && git -C %s apply /verif/seeded/%s/patch.diff' % (W, W, i), shell=True, check=True)
    t = time.time()
    r = subprocess.run(['python3', 'run.py', m['property'], '--tier', 'quick'], cwd='/verif', text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=dict(os.environ, SUREAL_REPO=W, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick'))
    shutil.rmtree(W)
    v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
    return i, m['property'], r.returncode, 'CAUGHT' if r.returncode == 1 and v else 'MISSED', len(v), '%.0fs' % (time.time() - t), '' if r.returncode in (0, 1) else r.stdout[-300:]
ids = sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
with ThreadPoolExecutor(int(os.environ.get('JOBS', '3'))) as ex:
    for x in ex.map(one, ids): print(*x, flush=True)
