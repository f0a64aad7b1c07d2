"""The stand-alone demo scripts (C26)."""
import importlib.util
import os
import subprocess
import sys

import numpy as np

from d_models import sweeps
from lib import pick, make_dataset, call, tag, num, nest, enc_result

SCRIPTS = {'p910': 'itut_p910_demo/demo_p910.py', 'p913': 'itut_p913_demo/demo.py', 'bt500': 'itur_bt500_demo/demo_bt500.py'}


def cases(pid, rng, scens, tier, budget):
    n = int((150 if tier == 'quick' else 1200) * budget)
    return [{'sc': s} for s in pick(rng, scens, n)]


def load(name):
    path = os.path.join(os.environ['SUREAL_REPO'], SCRIPTS[name])
    spec = importlib.util.spec_from_file_location('demo_' + name, path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod, path


def cell(rng, v):
    if v != v:
        return rng.choice(['nan', 'NaN', 'nan'])
    return str(int(v)) if v == int(v) and rng.random() < .5 else repr(float(v))


def run_case(pid, c, rng, wd):
    sc = c['sc']
    sh = {'style': 'list', 'miss': sc['miss'], 'reps': sc['reps'], 'vals': sc['vals'], 'size': sc['size'], 'cont': 'packed', 'order': 'sorted',
          'aid': 'seq', 'ref': 'noscore', 'minobs': 2, 'minvid': 1}
    slow = c['i'] % 12 == 5
    if slow:                    # data on which the projection needs many sweeps
        sh.update(size='small', miss='many', vals=rng.choice(['cont', 'int5']), reps=rng.choice(['one', 'one', sc['reps']]))
    for _ in range(200 if slow else 1):
        ds = make_dataset(rng, sh)
        if slow and 200 <= sweeps(ds) < 1000:
            break
    E, S = len(ds.dis_videos), len(ds.dis_videos[0]['os'])
    R = max(len(v) if isinstance(v, (list, tuple)) else 1 for d in ds.dis_videos for v in d['os'])
    x = np.full((E, S, R), np.nan)
    for e, d in enumerate(ds.dis_videos):
        for s, v in enumerate(d['os']):
            v = list(v) if isinstance(v, (list, tuple)) else [v]
            x[e, s, :len(v)] = v
    runs = []
    for name in (('p910', 'p913', 'bt500') if R == 1 else ('bt500',)):
        p = os.path.join(wd, name + '.csv')
        with open(p, 'w') as f:
            for r in range(R):
                if r:
                    f.write(',\n')
                for e in range(E):
                    f.write(','.join(cell(rng, x[e, s, r]) for s in range(S)) + '\n')
        read = {'t': 'none'}
        if sc['via'] == 'script' and c['i'] % 3 == 0:
            def go():
                q = subprocess.run([sys.executable, os.path.join(os.environ['SUREAL_REPO'], SCRIPTS[name]), '--input-csv', p],
                                   capture_output=True, text=True, timeout=100)
                if q.returncode:
                    raise RuntimeError(q.stderr[-200:])
                s = q.stdout[q.stdout.rindex('\n{') + 1 if '\n{' in q.stdout else q.stdout.index('{'):]
                return eval(s, {'nan': float('nan'), 'inf': float('inf'), 'array': np.array, '__builtins__': {}})
        else:
            def go():
                mod, _ = load(name)
                o = mod.read_csv_into_3darray(p) if name == 'bt500' else mod.read_csv_into_2darray(p)
                before = np.array(o)
                read.update(tag(before if before.ndim == 3 else before[:, :, None]))
                return mod.run_alternating_projection(o)
        res, err, msg = call(go)
        runs.append({'script': name, 'read': read, 'err': err, 'msg': msg,
                    'res': enc_result(res, {}) if not err else {'none': {'t': 'none'}}})
    return {'ev': [{'op': 'demo', 'x': nest(x.tolist()), 'err': '', 'runs': runs}]}
