"""plant.py DEFS.py [ids]: builds seeded/<id> from definitions, in scratch copies of /repo: the change must build,
pass the stable tests, and its demo must exit 0 without and non-zero with it.  Development tool, used by no check."""
import sys, os, json, subprocess, shutil, runpy
from concurrent.futures import ThreadPoolExecutor
SEED = '/verif/seeded'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
SH = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1
export MPLCONFIGDIR="$(mktemp -d)"
/opt/venv/bin/python -W ignore "$here/demo.py"; rc=$?
rm -rf "$MPLCONFIGDIR"
exit $rc
'''
PRE = '''import sys, os, tempfile, shutil, io, contextlib
import numpy as np
nan = float('nan')


def dataset(votes, contents=None, refs=None, ref_score=None, name='demo', asset_ids=None, paths=None):
    """votes: one 'os' per video; contents: content id per video; refs: indices of videos that are references."""
    ds = type('', (), {})()
    ds.dataset_name = name
    if ref_score is not None:
        ds.ref_score = ref_score
    contents = contents or [0] * len(votes)
    paths = paths or ['d%d.yuv' % i for i in range(len(votes))]
    ref_path = {c: 'ref%d.yuv' % c for c in contents}
    for i in refs or []:
        ref_path[contents[i]] = paths[i]
    ds.ref_videos = [{'content_id': c, 'content_name': 'c%d' % c, 'path': ref_path[c]} for c in sorted(set(contents))]
    ds.dis_videos = [{'content_id': contents[i], 'asset_id': asset_ids[i] if asset_ids else i, 'path': paths[i], 'os': votes[i]}
                     for i in range(len(votes))]
    return ds


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def refused(f, *a, **k):
    try:
        quiet(f, *a, **k)
    except Exception:
        return True
    return False


def check(ok, msg):
    if not ok:
        print('FAIL:', msg)
        sys.exit(1)


'''

def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

def one(d):
    i = d['id']; W = '/tmp/plant/%s' % i
    shutil.rmtree(W, ignore_errors=True); os.makedirs('/tmp/plant', exist_ok=True)
    R = W + '/repo'; os.makedirs(W)
    sh('cp -a /repo %s' % R)
    for f, old, new in d['edits']:
        p = R + '/' + f; s = open(p).read()
        if s.count(old) != d.get('count', 1):
            return i, 'EDIT old text found %d times: %r' % (s.count(old), old[:60])
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git diff', cwd=R).stdout
    out = W + '/s'; os.makedirs(out)
    open(out + '/patch.diff', 'w').write(diff)
    open(out + '/demo.sh', 'w').write(SH); os.chmod(out + '/demo.sh', 0o755)
    open(out + '/demo.py', 'w').write(PRE + d['demo'].strip() + '\n')
    json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['what']}, open(out + '/meta.json', 'w'), indent=1)
    a = sh('bash %s/demo.sh' % out, cwd='/repo'); b = sh('bash %s/demo.sh' % out, cwd=R)
    msg = 'demo clean rc=%d patched rc=%d' % (a.returncode, b.returncode)
    if a.returncode != 0 or b.returncode == 0:
        shutil.rmtree(W)
        return i, 'BAD ' + msg + '\n' + a.stdout[-700:] + '\n---\n' + b.stdout[-700:]
    if 'Traceback' in b.stdout: msg += ' (traceback: %s)' % b.stdout.strip().split('\n')[-1]
    sh("sed 's#/repo#%s#g' /opt/vp/test.sh > %s/test.sh" % (R, W))
    t = sh('bash %s/test.sh %s/o.json' % (W, W))
    o = json.load(open(W + '/o.json'))
    lost = STABLE - set(o['passed'])
    if lost:
        shutil.rmtree(W)
        return i, 'TESTS lost: %s' % sorted(lost)[:5]
    shutil.rmtree(SEED + '/' + i, ignore_errors=True)
    shutil.copytree(out, SEED + '/' + i)
    shutil.rmtree(W)
    return i, 'OK ' + msg

if __name__ == '__main__':
    defs = runpy.run_path(sys.argv[1])['BUGS']
    ids = sys.argv[2:]
    defs = [d for d in defs if not ids or d['id'] in ids]
    with ThreadPoolExecutor(7) as ex:
        for r in ex.map(one, defs):
            print(*r, flush=True)
