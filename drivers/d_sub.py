"""Sub-sampled statistics and synthetic validation (C27)."""
import os
import random

import numpy as np

from lib import (pick, make_dataset, enc_dataset, obs_ranks, call, tag, num, find_model, enc_result, kwargs_of)
from d_report import write

MODELS = ['P910', 'BR_MOS', 'SR_MOS', 'ZS_MOS', 'DMOS', 'P913', 'BT500', 'MLE_CO', 'MLE_CO_AP', 'LIVE_DMOS', 'SR_MOS_PCC']


def cases(pid, rng, scens, tier, budget):
    k = (1 if tier == 'quick' else 8) * budget
    out = []
    for kind, n in (('stats', 110), ('ci', 60), ('synth', 70)):
        out += pick(rng, [s for s in scens if s['kind'] == kind], int(n * k))
    rng.shuffle(out)
    return [{'sc': s} for s in out]


def run_case(pid, c, rng, wd):
    import matplotlib
    matplotlib.use('Agg')
    return {'stats': stats, 'ci': ci, 'synth': synth}[c['sc']['kind']](c, c['sc'], rng, wd)


def stats(c, sc, rng, wd):
    from matplotlib import pyplot as plt
    from sureal.routine import get_sample_stats
    models = ['MOS'] + rng.sample(MODELS, rng.randint(0, 2))
    rng.shuffle(models)
    dss = []
    for i in range(2 if sc['two'] else 1):
        dss.append(make_dataset(rng, {'style': sc['style'], 'miss': sc['miss'], 'reps': sc['reps'], 'vals': rng.choice(['cont', 'pct', 'neg']) if sc['frac'] != 'none' else 'half',
                                      'size': rng.choice(['mid', 'crowd']), 'cont': rng.choice(['packed', 'gap']), 'order': 'shuffled', 'aid': 'any', 'ref': 'yes',
                                      'minobs': 3, 'minvid': 3, 'keys': 'str'}))
    frac, bad = None, False
    if sc['frac'] == 'part':
        # products with the number of observers that are not decided by rounding
        S = [max(len(d['os']) for d in ds.dis_videos) if not isinstance(ds.dis_videos[0]['os'], dict) else len({k for d in ds.dis_videos for k in d['os']}) for ds in dss]
        for _ in range(200):
            frac = rng.choice([.5, .75, .625, .875, rng.uniform(.5, .99)])
            if all(abs(frac * s - round(frac * s)) > 1e-6 or (frac * 8) == int(frac * 8) for s in S) and all(int(frac * s) >= 3 for s in S):
                break
        else:
            frac = 1.0
    elif sc['frac'] == 'all':
        frac = rng.choice([1.0, 1])
    elif sc['frac'] == 'bad':
        frac, bad = rng.choice([0.0, -.5, 1.001, 2]), True
    seed = rng.choice([0, 1, rng.randrange(2 ** 31), rng.randrange(2 ** 31)]) if sc['seeded'] else None
    args = []
    for i, ds in enumerate(dss):
        p = os.path.join(wd, 'd%d.%s' % (i, 'json' if sc['json'] and sc['style'] != 'tuple' else 'py'))
        write(ds, p)
        args.append({'path': p, 'name': 'x%d' % i})
    ranks = [obs_ranks(ds) for ds in dss]

    def go(seed):
        out = get_sample_stats(args, [find_model(m) for m in models], do_plot=sc['plot'], subj_fraction=frac, random_seed=seed)
        plt.close('all')
        return [[enc_result(r, k, skip=('reconstruction_stats',)) for r in rs] for rs, k in zip(out, ranks)] if len(out) == len(dss) else []
    np.random.seed(rng.randrange(2 ** 31))
    runs = []
    r, err, msg = call(lambda: go(seed))
    runs.append(r or [])
    if not err:
        np.random.random(rng.randrange(9))
        r, err, msg = call(lambda: go(seed))
        runs.append(r or [])
    kw = kwargs_of({}, rng)[1]
    return {'ds': [enc_dataset(d) for d in dss],
            'ev': [{'op': 'stats', 'hasfrac': frac is not None, 'frac': num(frac or 0), 'bad': bad, 'seeded': seed is not None and frac is not None, 'models': models, 'mos': models.index('MOS') + 1,
                    'kw': kw, 'err': err, 'msg': msg, 'runs': runs if not err else []}]}


def ci(c, sc, rng, wd):
    from sureal.routine import get_ci_percentage
    evs = []
    for _ in range(12):
        n = {'one': 1, 'some': rng.randint(2, 9), 'many': 40}[sc['n']]

        def v(nan=.0):
            return float('nan') if rng.random() < nan else rng.randint(-24, 24) / 8
        ys = [v() for _ in range(n)]
        lo = [abs(v()) for _ in range(n)]
        hi = [abs(v()) if rng.random() < .7 else l for l in lo]
        xs = []
        for y, l, h in zip(ys, lo, hi):
            w = rng.random()
            xs.append(y - l if w < .25 else y + h if w < .5 else y - l - .125 if w < .6 else y + h + .125 if w < .7 else v(sc['nan'] and .3))
        if sc['nan']:
            for z in (ys, lo, hi):
                if rng.random() < .5:
                    z[rng.randrange(n)] = float('nan')
        cis = [lo, hi]
        if sc['fault'] == 'short':
            w = rng.choice(['xs', 'ys', 'ci'])
            if w == 'xs':
                xs = xs + [1.0]
            elif w == 'ys':
                ys = ys + [1.0]
            else:
                cis = [z + [.5] for z in cis]
        elif sc['fault'] == 'rows':
            cis = rng.choice([[lo], [lo, hi, lo]])
        arr = rng.choice([list, np.array, tuple])
        key = rng.choice(['quality_scores', 'observer_bias', 'anything'])
        r, err, msg = call(lambda: get_ci_percentage({key: arr(xs)}, {key: arr(ys), 'e': rng.choice([list, np.array])([list(z) for z in cis])}, key, 'e'))
        evs.append({'op': 'ci', 'xs': [num(a) for a in xs], 'ys': [num(a) for a in ys], 'ci': [[num(a) for a in z] for z in cis], 'err': err, 'msg': msg, 'res': {'perc': tag(r)}})
    return {'ev': evs}


def synth(c, sc, rng, wd):
    from matplotlib import pyplot as plt
    from sureal.routine import validate_with_synthetic_dataset
    from sureal.dataset_reader import SyntheticRawDatasetReader, SyntheticLogisticRawDatasetReader
    from sureal.tools.misc import import_python_file
    ds = make_dataset(rng, {'style': sc['style'], 'miss': 'few', 'reps': 'one', 'vals': 'half', 'size': rng.choice(['small', 'mid', 'tall']), 'cont': 'packed', 'order': rng.choice(['sorted', 'shuffled']),
                            'aid': 'seq', 'ref': 'yes', 'minobs': 2, 'keys': 'str'})
    E, C, S = len(ds.dis_videos), len(ds.ref_videos), rng.choice([7, 9, 14])
    p, o = os.path.join(wd, 'base.py'), os.path.join(wd, 'copy.py')
    write(ds, p)
    z = rng.random() < .3
    syn = {'quality_scores': np.array([rng.uniform(1, 5) for _ in range(E)]), 'observer_bias': np.array([rng.gauss(0, .5) for _ in range(S)]),
           'observer_inconsistency': np.array([rng.uniform(.3, .9) for _ in range(S)]), 'content_bias': np.array([0.0 if z else rng.gauss(0, .2) for _ in range(C)]),
           'content_ambiguity': np.array([rng.uniform(0, .4) for _ in range(C)]), 'seed': rng.randrange(2 ** 31)}
    models = rng.sample(['MOS', 'P910', 'MLE_CO_AP', 'BR_MOS', 'MLE_CO', 'MLE', 'SR_MOS', 'P913'], rng.randint(1, 3))
    more = {'output_synthetic_dataset_filepath': o}
    bad = False
    if sc['missing'] == 'some':
        more['missing_probability'] = rng.choice([.05, .2, 0.0])
    elif sc['missing'] == 'bad':
        more['missing_probability'], bad = rng.choice([-.1, 1, 1.5]), True
    if sc['timed']:
        more['measure_runtime'] = True
    kw = kwargs_of({}, rng)[1]
    if sc['zm'] == 'off':
        more['force_subjbias_zeromean'] = False
        kw['zm'] = False
    elif sc['zm'] == 'on':
        more['force_subjbias_zeromean'] = True
    ax = None
    if sc['axes']:
        fig, axs = plt.subplots(nrows=1, ncols=4)
        ax = dict(zip(['quality_scores', 'observer_bias', 'observer_inconsistency', 'quality_scores_std'], axs))
        more['do_errorbar'] = rng.random() < .5
    snap = {k: (v.tolist() if hasattr(v, 'tolist') else v) for k, v in syn.items()}
    ret, err, msg = call(lambda: validate_with_synthetic_dataset(SyntheticRawDatasetReader, [find_model(m) for m in models], p, syn, ax, **more))
    plt.close('all')
    kept = snap == {k: (v.tolist() if hasattr(v, 'tolist') else v) for k, v in syn.items()}
    enc = enc_dataset(ds)
    if not err:
        back, err, msg = call(lambda: enc_dataset(import_python_file(o)))
        enc = back or enc
    elif os.path.exists(o):
        enc = enc_dataset(import_python_file(o))
    ok = not err and ret.get('output_synthetic_dataset_filepath') == o
    return {'ds': [enc], 'ev': [{'op': 'synth', 'd': 1, 'bad': bad, 'kept': kept, 'models': models, 'kw': kw, 'err': err, 'msg': msg, 'path': ok, 'nobs': S, 'nvid': E, 'timed': sc['timed'],
                                'syn': {k: [num(a) for a in snap[k]] for k in ('quality_scores', 'observer_bias', 'observer_inconsistency')},
                                'res': {m: enc_result(r, {}) for m, r in ret['results'].items()} if not err else {'none': {'none': {'t': 'none'}}}}]}
