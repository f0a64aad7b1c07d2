"""Maximum-likelihood models with bootstrapping (C25)."""
import random

import numpy as np

from lib import (pick, make_dataset, enc_dataset, obs_ranks, call, enc_result, kwargs_of, find_model, DS)


def cases(pid, rng, scens, tier, budget):
    n = int((52 if tier == 'quick' else 420) * budget)
    out = pick(rng, scens, n)
    rng.shuffle(out)
    per = 1
    return [{'scs': out[i:i + per]} for i in range(0, len(out), per)]


def columns(ds):
    """the votes of each video, one entry per observer"""
    d0 = ds.dis_videos[0]['os']
    if isinstance(d0, dict):
        names = sorted({k for d in ds.dis_videos for k in d['os']})
        return [[d['os'].get(k, float('nan')) for k in names] for d in ds.dis_videos]
    return [list(d['os']) for d in ds.dis_videos]


def resampled(ds, subj=None, vid=None):
    new = DS()
    for k, v in ds.__dict__.items():
        setattr(new, k, v)
    cols = columns(ds)
    vids = range(len(cols)) if vid is None else vid
    subs = range(len(cols[0])) if subj is None else subj
    new.dis_videos = [dict(ds.dis_videos[e], os=[cols[e][s] for s in subs]) for e in vids]
    return new


def plain(ds, model, kwargs):
    from sureal.dataset_reader import RawDatasetReader
    r, err, msg = call(lambda: find_model(model)(RawDatasetReader(ds)).run_modeling(**kwargs))
    res = enc_result({k: v for k, v in r.items() if k != 'observers'}, {}) if not err else {'none': {'t': 'none'}}
    return {'err': err, 'res': res}


def run_case(pid, c, rng, wd):
    dss, evs = [], []
    for sc in c['scs']:
        ds, ev = one(sc, rng)
        dss.append(ds)
        ev['d'] = len(dss)
        evs.append(ev)
    return {'ds': dss, 'ev': evs}


def one(sc, rng):
    from sureal.dataset_reader import RawDatasetReader
    ds = make_dataset(rng, {'style': sc['style'], 'miss': sc['miss'], 'reps': sc['reps'], 'vals': rng.choice(['cont', 'pct', 'neg']),
                            'size': 'small' if sc['n'] in ('many', 'default') else rng.choice(['mid', 'mid', 'tall', 'small']), 'cont': rng.choice(['packed', 'gap']), 'order': 'shuffled',
                            'aid': rng.choice(['any', 'perm']), 'ref': 'yes', 'minobs': 4, 'minvid': 4, 'keys': rng.choice(['str', 'int'])})
    n = {'one': 1, 'two': 2, 'few': rng.randint(3, 5), 'many': rng.choice([9, 11]), 'default': 30}[sc['n']]
    kwargs, kw = kwargs_of({'z': sc['z']}, rng)
    opt = {}
    if sc['n'] != 'default':
        opt['n_bootstrap'] = n
    elif rng.random() < .5:
        opt['n_bootstrap'] = None
    bs, bv = sc['subj'] != 'off', sc['vid'] != 'off'
    for k, w in (('bootstrap_subjects', sc['subj']), ('boostrap_dis_videos', sc['vid'])):
        if w in ('on', 'off'):
            opt[k] = w == 'on'
        elif rng.random() < .3:
            opt[k] = None
    if sc['zm'] != 'default':
        opt['force_subjbias_zeromean'] = sc['zm'] == 'on'
    kw['zm'] = sc['zm'] != 'off'
    bad = sc['fault'] != ''
    if sc['fault'] == 'n':
        opt['n_bootstrap'] = rng.choice([0, -1, 2.5, '3'])
    elif sc['fault'] == 'switch':
        opt[rng.choice(['bootstrap_subjects', 'boostrap_dis_videos'])] = rng.choice([0, 'yes', 1])
    elif sc['fault'] == 'zm':
        opt['force_subjbias_zeromean'] = rng.choice([0, 'no'])
    np.random.seed(rng.randrange(2 ** 31))
    r, err, msg = call(lambda: find_model(sc['model'])(RawDatasetReader(ds)).run_modeling(**dict(kwargs, **opt)), seconds=200)
    ranks = obs_ranks(ds)
    base = {'MLE_BSTP': 'MLE', 'MLE_CO_BSTP': 'MLE_CO'}[sc['model']]
    inner = dict(kwargs, force_subjbias_zeromean=False)
    cols = columns(ds)
    S, E = len(cols[0]), len(cols)
    subj, vid = [], []
    if not bad:
        for i in range(n):
            if bs:
                sel = [int(a) for a in np.random.RandomState(i).choice(range(S), size=S, replace=True)]
                subj.append(dict(plain(resampled(ds, subj=sel), base, inner), sel=[a + 1 for a in sel]))
            if bv:
                sel = [int(a) for a in np.random.RandomState(i).choice(range(E), size=E, replace=True)]
                vid.append(dict(plain(resampled(ds, vid=sel), base, inner), sel=[a + 1 for a in sel]))
    return enc_dataset(ds), {'op': 'boot', 'model': sc['model'], 'kw': kw, 'bad': bad, 'bs': bs, 'bv': bv, 'err': err, 'msg': msg,
                             'base': plain(ds, base, inner), 'subj': subj, 'vid': vid,
                             'res': enc_result(r, ranks) if not err else {'none': {'t': 'none'}}}
