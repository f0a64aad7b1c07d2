"""Related datasets, related results (C11)."""
import random

import numpy as np

from lib import (pick, make_dataset, enc_dataset, obs_ranks, call, enc_result, kwargs_of, find_model, DS, NAMES, num)
from d_boot import columns

PER = 5     # models per dataset pair
GROUPS = {'mos': ['MOS', 'DMOS', 'SR_MOS', 'BT500', 'ZS_MOS', 'ZS_SR_MOS', 'SR_DMOS', 'ZS_SR_DMOS', 'LIVE_DMOS', 'PERSUBJECT', 'LS'],
          'corr': ['SR_MOS_PCC', 'SR_MOS_SRCC', 'BR_SR_MOS_PCC', 'BR_SR_MOS_SRCC', 'BR_MOS', 'BR_SR_MOS', 'P913'],
          'ap': ['P910', 'Subject_MLE_Projection', 'Subject_MLE_Projection2', 'MLE_CO_AP', 'MLE_CO_AP2'],
          'mle': ['MLE', 'MLE_CO', 'MLE_SO', 'DMOS_MLE', 'DMOS_MLE_CO', 'MLE_legacy']}


def cases(pid, rng, scens, tier, budget):
    n = int((150 if tier == 'quick' else 1200) * budget)
    return [{'sc': s} for s in pick(rng, scens, n)]


def rewrite(rng, ds, sc):
    cols = columns(ds)
    E, S = len(cols), len(cols[0])
    pv, po = list(range(E)), list(range(S))
    if sc['videos']:
        rng.shuffle(pv)
    if sc['observers']:
        rng.shuffle(po)
    c = {'none': 0, 'int': rng.choice([1, -3, 10]), 'half': rng.choice([.5, -2.25]), 'big': rng.choice([128, -64])}[sc['shift']]

    def add(v):
        if isinstance(v, (list, tuple)):
            w = [a + c for a in v]
            return w if rng.random() < .5 else tuple(w)
        return v + c
    new = DS()
    for k, v in ds.__dict__.items():
        setattr(new, k, v)
    cids = sorted({r['content_id'] for r in ds.ref_videos})
    cm = dict(zip(cids, rng.sample(cids, len(cids)) if sc['rename'] else cids))
    pm = {}

    def path(p):
        if not sc['rename']:
            return p
        return pm.setdefault(p, '/z/%d_%s' % (rng.randrange(10 ** 6), p[::-1].replace('/', '')))
    refs = [dict(r, content_id=cm[r['content_id']], path=path(r['path'])) for r in ds.ref_videos]
    if sc['rename']:
        rng.shuffle(refs)
    aids = rng.sample(range(2000), E)
    names = sorted(rng.sample(NAMES, S)) if rng.random() < .7 else sorted(rng.sample(range(500), S))
    dis = []
    for i in range(E):
        d = dict(ds.dis_videos[pv[i]])
        d['content_id'] = cm[d['content_id']]
        d['path'] = path(d['path'])
        if sc['rename']:
            d['asset_id'] = aids[i]
        vs = [add(cols[pv[i]][po[j]]) for j in range(S)]
        if sc['style2'] == 'list':
            d['os'] = vs
        elif sc['style2'] == 'tuple':
            d['os'] = tuple(vs)
        else:
            js = list(range(S))
            rng.shuffle(js)
            d['os'] = {names[j]: vs[j] for j in js if not (isinstance(vs[j], float) and vs[j] != vs[j] and rng.random() < .9)}
        dis.append(d)
    if sc['style2'] == 'dict':
        for j in range(S):
            if not any(names[j] in d['os'] for d in dis):
                dis[0]['os'][names[j]] = float('nan')
        for d in dis:
            if not d['os']:
                d['os'][names[0]] = float('nan')
    new.ref_videos, new.dis_videos = refs, dis
    return new, pv, po, c


def run_case(pid, c, rng, wd):
    from sureal.dataset_reader import RawDatasetReader
    sc = c['sc']
    ds = make_dataset(rng, {'style': sc['style'], 'miss': sc['miss'], 'reps': sc['reps'],
                            'vals': rng.choice({'mos': ['half', 'outlier', 'exact', 'int5', 'exact2'], 'corr': ['inverse', 'half', 'outlier', 'cont'],
                                                'ap': ['cont', 'half', 'pct'], 'mle': ['cont', 'pct', 'half']}[sc['group']]),
                            'size': rng.choice(['small', 'mid', 'tall'] + (['crowd', 'big'] if sc['group'] in ('mos', 'corr') else [])), 'cont': rng.choice(['packed', 'gap']),
                            'order': 'shuffled', 'aid': 'any', 'ref': 'yes', 'minobs': 3, 'minvid': 3, 'keys': rng.choice(['str', 'int'])})
    other, pv, po, shift = rewrite(rng, ds, sc)
    evs = []
    for m in rng.sample(GROUPS[sc['group']], min(2 if sc['group'] == 'mle' else PER, len(GROUPS[sc['group']]))):
        kwargs, kw = kwargs_of({k: True for k in ('d', 'z', 'b', 'rej') if sc['kw'] == k}, rng)
        out = []
        for x in (ds, other):
            r, err, msg = call(lambda: find_model(m)(RawDatasetReader(x)).run_modeling(**kwargs))
            out.append((enc_result(r, obs_ranks(x)) if not err else {'none': {'t': 'none'}}, err, msg))
        evs.append({'op': 'meta', 'a': 1, 'b': 2, 'model': m, 'kw': kw, 'pv': [i + 1 for i in pv], 'po': [j + 1 for j in po], 'c': num(shift),
                    'e1': out[0][1], 'e2': out[1][1], 'err': '', 'msg': (out[0][2] + ' / ' + out[1][2])[:300], 'r1': out[0][0], 'r2': out[1][0]})
    return {'ds': [enc_dataset(ds), enc_dataset(other)], 'ev': evs}
