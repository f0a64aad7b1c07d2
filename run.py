#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--replay FILE]

Decides one property: design check of the specification (TLC), scenario generation
(TLC), execution of the real code (drivers/), validation of the recorded traces
against the specification (TLC)."""
import argparse
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, 'spec')
REPO = os.environ.get('SUREAL_REPO', '/repo')
PY = '/opt/venv/bin/python'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CPUS = min(8, os.cpu_count() or 1)

# design instances model-checked per property: (module, cfg, extra TLC args)
DESIGN = json.load(open(os.path.join(HERE, 'design.json')))


class Machinery(Exception):
    pass


def build():
    """Num.class, compiled from spec/java on demand; safe against concurrent runs"""
    src = os.path.join(SPEC, 'java', 'Num.java')
    h = hashlib.sha1(open(src, 'rb').read()).hexdigest()[:16]
    dst = os.path.join(HERE, '.build', h)
    if os.path.exists(os.path.join(dst, 'Num.class')):
        return dst
    os.makedirs(os.path.join(HERE, '.build'), exist_ok=True)
    tmp = tempfile.mkdtemp(dir=os.path.join(HERE, '.build'))
    p = subprocess.run(['javac', '-cp', JARS, '-d', tmp, src], capture_output=True, text=True)
    if p.returncode:
        raise Machinery('javac: ' + p.stderr)
    try:
        os.rename(tmp, dst)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return dst


def tlc(classes, work, module, cfg, env=None, args=(), timeout=850, workers=CPUS, heap='8g'):
    md = tempfile.mkdtemp(dir=work)
    cmd = ['java', '-Xss64m', '-Xmx' + heap, '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + md, '-cp', classes + ':' + JARS, 'tlc2.TLC',
           '-noGenerateSpecTE', '-metadir', md, '-workers', str(workers), '-config', cfg] + list(args) + [module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery('TLC timed out on ' + module)
    shutil.rmtree(md, ignore_errors=True)
    return p.returncode, re.sub(r'Loading \w+ operator override.*\n', '', p.stdout + p.stderr)


def run_group(cmd, cwd, env, timeout):
    """run cmd; when it ends, its time runs out or this process is stopped, nothing of it stays behind"""
    with tempfile.TemporaryFile('w+', dir=cwd) as out, tempfile.TemporaryFile('w+', dir=cwd) as err:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=out, stderr=err, text=True, start_new_session=True)
        try:
            p.wait(timeout)
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        out.seek(0)
        err.seek(0)
        return subprocess.CompletedProcess(cmd, p.returncode, out.read(), err.read())


def counts(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def driver_env(work):
    e = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    e.update(PYTHONPATH=REPO, MPLBACKEND='Agg', MPLCONFIGDIR=os.path.join(work, 'mpl'), PYTHONDONTWRITEBYTECODE='1',
             PYTHONPYCACHEPREFIX=os.path.join(work, 'pyc'), OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             PYTHONHASHSEED='0', SUREAL_REPO=REPO, PATH='/opt/venv/bin:' + os.environ.get('PATH', ''),
             VERIF_WORK=work)
    return e


def validate(classes, work, tracefile, n_traces, n_events):
    """-> list of (t, l, clauses) that are no steps of the specification, states, distinct"""
    bad, skip = [], []
    for _ in range(6):
        rc, out = tlc(classes, work, 'SurealTrace.tla', 'SurealTrace.cfg',
                      {'TRACES': tracefile, 'SKIP': json.dumps(skip)})
        found = [(int(a), int(b), c) for a, b, c in re.findall(r'"BAD\|(\d+)\|(\d+)\|(.*)"\s*$', out, re.M)]
        gen, dist = counts(out)
        if rc == 0 and 'No error has been found' in out:
            if dist != n_traces + n_events:
                raise Machinery('validator saw %d states, expected %d\n%s' % (dist, n_traces + n_events, out[-2000:]))
            bad += found
            return bad, gen, dist, out
        # an event the specification cannot even evaluate (a value of an unexpected kind)
        st = re.findall(r'State \d+:.*?\n(?:/\\ )?(?:t = (\d+)|l = (\d+))\n(?:/\\ )?(?:t = (\d+)|l = (\d+))', out)
        if not st:
            raise Machinery('TLC failed:\n' + out[-4000:])
        a = st[-1]
        t = int(a[0] or a[2])
        l = int(a[1] or a[3])
        msg = re.findall(r'Error: (.*)', out)
        skip.append([t, l + 1])
        bad.append((t, l + 1, 'not evaluable: ' + ' '.join(msg)[:200]))
        sys.stderr.write(out[-3000:])
    return bad, gen, dist, out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--setup', action='store_true', help='build only')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--budget', type=float, default=1.0, help='multiplies the number of cases')
    a = ap.parse_args()
    if a.setup:
        cls = build()
        with tempfile.TemporaryDirectory(dir=os.path.join(HERE, '.build')) as wd:
            rc, out = tlc(cls, wd, 'NumCheck.tla', 'NumCheck.cfg')
        print('NumCheck', 'ok' if 'No error has been found' in out else out[-2000:])
        sys.exit(0 if 'No error has been found' in out else 2)
    signal.signal(signal.SIGTERM, lambda *x: sys.exit(2))
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    os.makedirs(os.path.join(HERE, '.work'), exist_ok=True)
    work = tempfile.mkdtemp(prefix=a.id + '_', dir=os.path.join(HERE, '.work'))
    try:
        rc = check(a, work, seed, t0)
    except Machinery as e:
        print('MACHINERY-ERROR %s: %s' % (a.id, e))
        rc = 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print('kept', work)
    sys.exit(rc)


def check(a, work, seed, t0):
    classes = build()
    states = trans = 0
    design_note = []
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    # ---- 1 design
    for d in (DESIGN.get(a.id, []) if not a.replay else []):
        cfg = d.get('cfg_' + tier, d['cfg'])
        rc, out = tlc(classes, work, d['module'], cfg, {}, d.get('args', []))
        if rc != 0 or 'No error has been found' not in out:
            raise Machinery('design check %s failed:\n%s' % (d['module'], out[-3000:]))
        g, s = counts(out)
        states += s
        trans += g
        design_note.append('%s/%s: %d states' % (d['module'], cfg, s))
    # ---- 2 scenarios
    scen = os.path.join(work, 'scen.ndjson')
    if a.replay:
        rep = json.load(open(a.replay))
        cases = os.path.join(work, 'cases.json')
        json.dump([v['case'] for v in rep['violations'] if 'case' in v], open(cases, 'w'))
        open(scen, 'w').close()
    else:
        cases = ''
        for g in (DESIGN.get(a.id + ':gen') or [{'module': 'SurealGen.tla', 'cfg': 'SurealGen.cfg'}]):
            args = [x.replace('{seed}', str(seed)).replace('{num}', str(int(g.get('num_' + tier, 0) * a.budget)))
                    for x in g.get('args', [])]
            rc, out = tlc(classes, work, g['module'], g.get('cfg_' + tier, g.get('cfg')), {'GENID': a.id, 'GENTIER': tier, 'GENOUT': scen},
                          args, workers=1)
            if rc != 0 or ('-simulate' not in args and 'No error has been found' not in out):
                raise Machinery('generation failed:\n' + out[-3000:])
            lines = re.findall(r'"SCEN\|(.*)"\s*$', out, re.M)
            if lines:
                with open(scen, 'a') as f:
                    for ln in sorted(set(lines)):
                        f.write(ln.encode().decode('unicode_escape') + '\n')
                gen, s = counts(out)
                states += s
                trans += gen
    n_scen = sum(1 for _ in open(scen))
    # ---- 3 execution
    traces = os.path.join(work, 'traces.ndjson')
    cmd = [PY, os.path.join(HERE, 'drivers', 'drv.py'), a.id, '--scen', scen, '--tier', tier, '--seed', str(seed),
           '--out', traces, '--work', work, '--procs', str(CPUS), '--budget', str(a.budget)]
    if cases:
        cmd += ['--cases', cases]
    try:
        p = run_group(cmd, work, driver_env(work), 3000 if tier == 'thorough' else 700)
    except subprocess.TimeoutExpired:
        raise Machinery('driver timed out')
    t1 = time.time()
    if p.returncode != 0:
        raise Machinery('driver failed (%d):\n%s\n%s' % (p.returncode, p.stdout[-3000:], p.stderr[-3000:]))
    recs = [json.loads(x) for x in open(traces)]
    n_ev = sum(len(r['ev']) for r in recs)
    if not recs or not n_ev:
        raise Machinery('no traces recorded')
    # ---- 4 validation
    bad, gen, dist, out = validate(classes, work, traces, len(recs), n_ev)
    states += dist
    trans += gen - len(recs)
    # ---- report
    known = json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
    kf, viol = {}, []
    for t, l, cl in bad:
        tr = recs[t - 1]
        ev = tr['ev'][l - 1]
        names = set(re.findall(r'\w[\w .:,()\[\]-]*', cl.replace('\\"', '"'))) if cl.startswith('not evaluable') else \
            set(re.findall(r'"([^"]*)"', cl.replace('\\"', '"')))
        left = set(names)
        for k in known:
            if k['property'] == a.id and k['op'] == ev['op'] and k['clause'] in left:
                left.discard(k['clause'])
                kf[k['what']] = kf.get(k['what'], 0) + 1
        if left:
            viol.append({'trace': t, 'event': l, 'clauses': sorted(left), 'case': tr.get('case'),
                         'op': ev['op'], 'err': ev.get('err', ''), 'msg': ev.get('msg', ''),
                         'event_data': ev, 'ds': tr.get('ds')})
    ops = {}
    for r in recs:
        for e in r['ev']:
            k = e['op'] + ((':' + e['model']) if 'model' in e else '')
            ops[k] = ops.get(k, 0) + 1
    ev = {'property': a.id, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {'states': states, 'transitions': trans, 'traces_validated_against_impl': len(recs),
                       'events_validated': n_ev, 'events_by_kind': ops, 'scenarios_enumerated_by_tlc': n_scen,
                       'design': design_note,
                       'samples': [{'case': r.get('case'), 'events': [{k: v for k, v in e.items() if len(json.dumps(v)) < 200} for e in r['ev'][:3]]}
                                   for r in recs[:2]]},
          'assumptions': ['results are compared with the specification up to its stated relative tolerances',
                          'values between sampled scenarios are not covered; TLC, NumPure/Num.java (cross-checked) and the drivers\' encoding are trusted'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(work, 'ev.json')
    json.dump(ev, open(tmp, 'w'), indent=1)
    shutil.copy(tmp, os.path.join(HERE, 'evidence', a.id + '.json'))
    for w in sorted(kf):
        print('KNOWN-FINDING: property=%s %s' % (a.id, w))
    print('%s %s: %d scenarios, %d traces, %d events, %d states; driver %.1fs total %.1fs' %
          (a.id, tier, n_scen, len(recs), n_ev, states, t1 - t0, time.time() - t0))
    if viol:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join(HERE, 'replays', '%s_%d.json' % (a.id, seed))
        json.dump({'property': a.id, 'seed': seed, 'violations': viol[:40]}, open(path, 'w'))
        for v in viol[:5]:
            print('  trace %d event %d %s: clauses %s %s %s' % (v['trace'], v['event'], v['op'], v['clauses'], v['err'], v['msg'][:120]))
        print('VIOLATION property=%s replay=%s' % (a.id, path))
        return 1
    return 0


if __name__ == '__main__':
    main()
