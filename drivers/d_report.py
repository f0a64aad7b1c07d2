"""run_subjective_models, its report and the command line (C20)."""
import contextlib
import copy
import io
import json
import math
import os
import re
import subprocess
import sys
import time

import numpy as np

from lib import (pick, make_dataset, enc_dataset, obs_ranks, call, tag, num, isnum, find_model, enc_result, kwargs_of, KW0)
from d_pc import make_pc, enc_pc

SETS = {'basic': ['MOS', 'P910', 'P913', 'BT500'], 'mos': ['MOS', 'ZS_MOS', 'SR_MOS', 'BR_MOS', 'SR_MOS_PCC'], 'dmos': ['DMOS', 'LIVE_DMOS', 'SR_DMOS', 'MOS'],
        'mle': ['MLE_CO', 'MLE', 'MLE_CO_AP', 'MOS'], 'so': ['MLE_SO', 'P910', 'MLE'], 'ap': ['MLE_CO_AP2', 'Subject_MLE_Projection', 'P910'],
        'pc': ['BT_MLE', 'THURSTONE_MLE', 'BT_NR'], 'one': ['MOS', 'P910', 'P913', 'BT500', 'LS', 'BR_SR_MOS_SRCC', 'MLE_CO', 'ZS_SR_MOS']}


def cases(pid, rng, scens, tier, budget):
    n = int((170 if tier == 'quick' else 1200) * budget)
    return [{'sc': s} for s in pick(rng, scens, n)]


def val(v):
    """a figure of the report"""
    if isnum(v):
        return num(v)
    if isinstance(v, (list, tuple, np.ndarray)):
        return [val(a) for a in v]
    return [9]


def enc_out(out):
    def ent(l, key):
        return [{'name': str(d.get(key, '')) if set(d) <= {key, 'models'} else 'extra keys',
                 'models': {m: {k: val(x) for k, x in f.items()} or {'none': [9]} for m, f in d.get('models', {}).items()} or {'none': {'none': [9]}}} for d in l]
    st = out.get('stats', {}).get('models', {})
    return {'dis_videos': ent(out.get('dis_videos', []), 'dis_video_name'), 'observers': ent(out.get('observers', []), 'observer'),
            'contents': ent(out.get('contents', []), 'content'), 'hasstats': bool(st),
            'stats': {m: {k: val(x) for k, x in f.items()} or {'none': [9]} for m, f in st.items()} or {'none': {'none': [9]}}}


NOOUT = {'dis_videos': [], 'observers': [], 'contents': [], 'hasstats': False, 'stats': {'none': {'none': [9]}}}


def write(ds, path):
    from sureal.dataset_reader import DatasetReader
    if path.endswith('.json'):
        d = {k: v for k, v in ds.__dict__.items()}
        with open(path, 'w') as f:
            json.dump(d, f)
    else:
        with open(path, 'w') as f:
            if len(repr(ds.dis_videos)) % 2:
                f.write('import numpy as np\n')
            for k, v in ds.__dict__.items():
                f.write('%s = %s\n' % (k, re.sub(r'(?<![\w\'"])nan(?![\w\'"])', "float('nan')", repr(v))))


def run_case(pid, c, rng, wd):
    import matplotlib
    matplotlib.use('Agg')
    from matplotlib import pyplot as plt
    from sureal.routine import run_subjective_models, format_output_of_run_subjective_models
    from sureal.dataset_reader import RawDatasetReader, PairedCompDatasetReader
    import sureal.pc_subjective_model  # noqa
    sc = c['sc']
    pc = sc['set'] == 'pc'
    models = list(SETS[sc['set']])
    rng.shuffle(models)
    models = models[:1] if sc['set'] == 'one' else models[:rng.randint(1, len(models))] if rng.random() < .5 else models
    if rng.random() < .1:
        models.append(rng.choice(models))
    if pc:
        time.sleep = lambda s: None
        ds = make_pc(rng, rng.randint(2, 5), rng.choice([10, 14]), 'full', 'some', rng.choice(['seq', 'perm']))
        for i, d in enumerate(ds.dis_videos):
            for e in ds.dis_videos:
                if d is not e:
                    for k in range(2):
                        d['os'][('extra%d_%d' % (i, k), e['asset_id'])] = 1
        enc = enc_pc(ds)
    else:
        mle = any('MLE' in m or m == 'LS' for m in models)
        ls = 'LS' in models
        crowd = sc['set'] in ('basic', 'mos', 'ap') and not ls and rng.random() < .3
        ds = make_dataset(rng, {'style': sc['style'] if not (sc['file'] == 'json' and sc['style'] == 'tuple') else 'list', 'miss': 'none' if ls else sc['miss'],
                                'reps': 'one' if ls else sc['reps'], 'vals': rng.choice(['half', 'cont', 'pct', 'outlier']), 'size': 'crowd' if crowd else rng.choice(['small', 'mid']) if mle else rng.choice(['tiny', 'small', 'mid']),
                                'cont': 'packed', 'order': 'shuffled', 'aid': rng.choice(['seq', 'perm', 'any']), 'ref': 'yes', 'minobs': 4 if mle else 3, 'minvid': 3,
                                'keys': 'int' if sc['file'] == 'py' and rng.random() < .3 else 'str'})
        enc = enc_dataset(ds)
    for i, r in enumerate(ds.ref_videos):
        r['content_name'] = rng.choice(['zebra', 'apple', 'Cat', 'b 7', 'm']) + '_%d' % rng.randrange(100)
    refnames = [{'cid': r['content_id'], 'name': r['content_name']} for r in ds.ref_videos]
    path = os.path.join(wd, 'set.' + ('py' if pc and sc['file'] == 'json' else sc['file']))
    write(ds, path)
    kw = {}
    if sc['kw'] == 'norm' and not pc:
        kw = {'norm': True}
    elif sc['kw'] == 'tf' and not pc:
        kw = {'tf': True}
    elif sc['kw'] == 'rej' and not pc:
        kw = {'rej': True}
    kwargs, rec = kwargs_of(kw, rng)
    if pc:
        kwargs['dataset_reader_class'] = PairedCompDatasetReader
    plot = {'none': None, 'some': ['raw_scores', 'quality_scores', 'subject_scores'], 'all': 'all'}[sc['plot']]
    if pc and plot:
        plot = ['raw_scores', 'quality_scores']
    if plot:
        kwargs['do_plot'] = plot
    holder = {}

    def go():
        d, ms, rs = run_subjective_models(dataset_filepath=path, subjective_model_classes=[find_model(m) for m in models], **kwargs)
        holder['r'] = (d, ms, rs)
        return rs
    rs, err, msg = call(go)
    plt.close('all')
    ranks = {} if pc else obs_ranks(ds)
    run = {'op': 'run', 'd': 1, 'pc': pc, 'known': path.endswith(('.py', '.json')), 'calls': [{'model': m, 'kw': rec} for m in models], 'err': err, 'msg': msg,
           'types': [m.TYPE for m in holder['r'][1]] if not err else [], 'results': [enc_result(r, ranks, skip=('reconstruction_stats',)) for r in rs] if not err else [],
           'recon': []}
    for r in rs or []:
        s = r.get('reconstruction_stats')
        run['recon'].append({'t': 'absent'} if s is None else {'t': 'stats', **{k: num(s[k]) for k in ('rmse', 'cc', 'srocc')}})
    evs = [run]
    if not err:
        out, err2, msg2 = call(lambda: enc_out(format_output_of_run_subjective_models(*holder['r'])))
        evs.append({'op': 'report', 'd': 1, 'prev': 1, 'err': err2, 'msg': msg2, 'out': out or NOOUT, 'refnames': refnames})
    # the command line: default options only
    if sc['cli'] != 'none':
        fault = sc['fault'] if rng.random() < .6 else ''
        ms = list(models)
        p = path
        if fault == 'unknown':
            ms.insert(rng.randint(0, len(ms)), rng.choice(['MOSS', 'mos', 'SubjectiveModel', 'p910']))
        elif fault == 'mixed':
            ms.insert(rng.randint(0, len(ms)), 'MOS' if pc else rng.choice(['BT_MLE', 'THURSTONE_MLE']))
        elif fault == 'file':
            p = os.path.join(wd, 'set.txt')
            open(p, 'w').write(open(path).read())
        if sc['kw'] != 'none' or sc['file'] == 'txt':      # the reference run of the command line
            if sc['file'] == 'txt':
                path = os.path.join(wd, 'set.py')
                write(ds, path)
                p = path if fault != 'file' else p
            kwargs2, rec2 = kwargs_of({}, rng)
            if pc:
                kwargs2['dataset_reader_class'] = PairedCompDatasetReader
            rs2, err3, msg3 = call(lambda: run_subjective_models(path, [find_model(m) for m in models], **kwargs2)[2])
            evs.append({'op': 'run', 'd': 1, 'pc': pc, 'known': True, 'calls': [{'model': m, 'kw': rec2} for m in models], 'err': err3, 'msg': msg3,
                        'types': list(models) if not err3 else [], 'results': [enc_result(r, ranks, skip=('reconstruction_stats',)) for r in rs2] if not err3 else [],
                        'recon': [({'t': 'absent'} if r.get('reconstruction_stats') is None else {'t': 'stats', **{k: num(r['reconstruction_stats'][k]) for k in ('rmse', 'cc', 'srocc')}}) for r in rs2 or []]})
            prev = len(evs)
        else:
            prev = 1
        if sc['cli'].startswith('old'):
            evs.append(cli_old(sc, rng, wd, p, models, fault, prev))
        else:
            evs.append(cli(sc, c, rng, wd, p, ms, fault, prev, refnames))
    return {'ds': [enc], 'ev': evs}


def cli(sc, c, rng, wd, path, models, fault, prev, refnames):
    odir = os.path.join(wd, 'out', 'deep')
    argv = ['--dataset', path, '--models'] + models
    if sc['plot'] == 'some':
        argv.append(rng.choice(['--plot-raw-data', '--plot-dis-videos', '--plot-observers']))
    if sc['cli'] == 'dir':
        argv += ['--output-dir', odir]
    text = io.StringIO()

    def go():
        if c['i'] % 12 == 0:
            p = subprocess.run([sys.executable, '-m', 'sureal'] + argv, capture_output=True, text=True, cwd=wd, timeout=100)
            text.write(p.stdout)
            if p.returncode != 0:
                raise RuntimeError('exit code %d' % p.returncode)
            return 0
        import importlib
        main = importlib.import_module('sureal.__main__').main
        old = sys.argv
        sys.argv = ['sureal'] + argv
        try:
            with contextlib.redirect_stdout(text):
                return main()
        finally:
            sys.argv = old
            from matplotlib import pyplot as plt
            plt.close('all')
    code, err, msg = call(go)
    f = os.path.join(odir, 'output.json')
    written = os.path.exists(f)
    out = NOOUT
    if not err:
        def read():
            if sc['cli'] == 'dir':
                return enc_out(json.load(open(f)))
            s = text.getvalue()
            for at in range(len(s)):         # progress messages may precede the report
                if s[at] == '{':
                    try:
                        o = json.JSONDecoder().raw_decode(s[at:])[0]
                    except ValueError:
                        continue
                    if isinstance(o, dict) and 'dis_videos' in o:
                        return enc_out(o)
            raise ValueError('no report printed')
        o, err, msg = call(read)
        out = o or NOOUT
    return {'op': 'cli', 'd': 1, 'prev': prev, 'fault': fault, 'err': err, 'msg': msg, 'code': code if isinstance(code, int) else (0 if code is None else 1),
            'written': written, 'out': out, 'refnames': refnames}


def cli_old(sc, rng, wd, path, models, fault, prev):
    """the deprecated command line: one model, its results as they are"""
    import importlib
    main = importlib.import_module('sureal.cmd_deprecated').main
    at = rng.randrange(len(models))
    name = rng.choice(['MOSS', 'mos', 'SubjectiveModel', 'BT_MLE', 'p910']) if fault in ('unknown', 'mixed') else models[at]
    odir = os.path.join(wd, 'old', 'deep')
    argv = ['sureal_old', name, path]
    if fault == 'mixed':
        argv = argv[:2] if rng.random() < .5 else argv[:1]
    if sc['cli'] == 'olddir':
        argv += ['--output-dir', odir] if len(argv) == 3 else []
    else:
        argv += ['--print'] if len(argv) == 3 else []
    text = io.StringIO()

    def go():
        old = sys.argv
        sys.argv = argv
        try:
            with contextlib.redirect_stdout(text):
                return main()
        finally:
            sys.argv = old
            from matplotlib import pyplot as plt
            plt.close('all')
    code, err, msg = call(go)
    f = os.path.join(odir, 'sureal.json')
    written = os.path.exists(f) or 'Result:' in text.getvalue()
    out, marked = {'none': [9]}, []
    if not err and written:
        def read():
            if sc['cli'] == 'olddir':
                return json.load(open(f))
            s = text.getvalue()
            return json.loads(s[s.index('Result:') + 7:])
        o, err, msg = call(read)
        marked = [k for k, v in (o or {}).items() if v == '<not serializable>']
        out = {k: val(v) for k, v in (o or {}).items() if k not in marked} or out
    return {'op': 'cli_old', 'd': 1, 'prev': prev, 'at': at + 1, 'fault': fault, 'file': sc['cli'] == 'olddir', 'err': err, 'msg': msg,
            'code': code if isinstance(code, int) else -1, 'written': written, 'out': out, 'marked': marked}
