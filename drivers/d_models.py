"""Readers and subjective models on generated datasets (C01, C03-C10, C21)."""
import json
import os
import random

import numpy as np

from lib import (pick, make_dataset, enc_dataset, obs_ranks, run_model_event, call, tag, itag, ints, num, clone, find_model,
                 enc_result)

N = {'C01': 260, 'C03': 110, 'C04': 90, 'C05': 80, 'C06': 80, 'C07': 120, 'C08': 110, 'C09': 70, 'C10': 56, 'C21': 64}
DEEP = 6
MINOR = {'cont': ['packed', 'gap'], 'order': ['sorted', 'shuffled'], 'aid': ['seq', 'perm', 'any'], 'keys': ['str', 'str', 'int']}


def flesh(rng, sh):
    sh = dict(sh)
    for k, v in MINOR.items():
        sh.setdefault(k, rng.choice(v))
    return sh


def cases(pid, rng, scens, tier, budget):
    n = int(N[pid] * (DEEP if tier == 'thorough' else 1) * budget)
    if pid == 'C21':
        calls = pick(rng, [dict(s['kw'], model=s['model'], _s=s) for s in scens], n * 8, skip=('_s',))
        rng.shuffle(calls)
        return [{'calls': [c['_s'] for c in calls[i::n]]} for i in range(n)]
    flat = pick(rng, [dict(s['sh'], refm=s.get('refm', ''), _s=s) for s in scens], n, skip=('_s',))
    return [{'sc': f['_s']} for f in flat]


def reader_event(ds, didx, via, wd):
    from sureal.dataset_reader import RawDatasetReader
    ranks = obs_ranks(ds)

    def go():
        if via == 'file':
            from sureal.dataset_reader import DatasetReader
            from sureal.tools.misc import import_python_file
            p = os.path.join(wd, 'dataset_in.py')
            DatasetReader.write_out_dataset(ds, p)
            rd = RawDatasetReader(import_python_file(p))
        else:
            rd = RawDatasetReader(ds)
        res = {'tensor': tag(rd.opinion_score_3darray), 'num_observers': itag(rd.num_observers),
               'num_dis_videos': itag(rd.num_dis_videos), 'num_ref_videos': itag(rd.num_ref_videos),
               'max_repetitions': itag(rd.max_repetitions), 'max_content_id': itag(rd.max_content_id_of_ref_videos),
               'content_id_of_dis_videos': ints(rd.content_id_of_dis_videos), 'content_ids': ints(rd.content_ids),
               'asset_ids': ints(rd.asset_ids),
               'disvideo_is_refvideo': tag(list(rd.disvideo_is_refvideo)), 'ref_score': tag(rd.ref_score)}
        obs, err, _ = call(lambda: rd._get_list_observers())
        res['observers'] = {'t': 'error', 'v': err} if err else tag(list(obs), ranks)
        return res
    res, err, msg = call(go)
    return {'op': 'reader', 'd': didx, 'via': via, 'err': err, 'msg': msg, 'res': res or {'none': {'t': 'none'}}}


def run_case(pid, c, rng, wd):
    if pid == 'C21':
        sh = flesh(rng, {'style': rng.choice(['list', 'tuple', 'dict']), 'miss': rng.choice(['none', 'few']), 'reps': rng.choice(['one', 'one', 'two']),
                         'vals': rng.choice(['half', 'cont', 'outlier', 'inverse']), 'size': rng.choice(['small', 'mid']), 'minobs': 3, 'minvid': 3})
        ds = make_dataset(rng, sh)
        evs = [run_model_event(ds, 1, k['model'], k['kw'], rng) for k in c['calls']]
        if c['i'] % 8 == 0:
            evs.append(registry_event())
        return {'ds': [enc_dataset(ds)], 'ev': evs}
    sc = c['sc']
    sh = flesh(rng, sc['sh'])
    sh['cross'] = pid in ('C01', 'C04')
    if pid == 'C01':
        sh['ref'] = rng.choice(['yes', 'dup', 'lack', 'noscore'])
        ds = make_dataset(rng, sh)
        return {'ds': [enc_dataset(ds)], 'ev': [reader_event(ds, 1, v, wd) for v in ('object', 'file', 'object')]}
    if pid == 'C04':
        sh['ref'] = sc['refm']
    if pid in ('C08', 'C04', 'C06'):
        sh['minobs'] = 3
    if pid == 'C09':
        sh['minobs'], sh['minvid'] = 2, 1
    if pid == 'C10':
        return mle_case(c, sh, rng)
    calls = sc['calls']
    if pid == 'C09' and c['i'] % 17 == 5:       # data on which the projection needs many sweeps
        sh.update(size='small', miss='many', vals=rng.choice(['cont', 'int5']))
        calls = rng.sample(calls, 2)
        for _ in range(200):
            ds = make_dataset(rng, sh)
            if 200 <= sweeps(ds) < 1000:
                break
    else:
        ds = make_dataset(rng, sh)
    evs = []
    for k in calls:
        evs.append(run_model_event(ds, 1, k['model'], k['kw'], rng))
    return {'ds': [enc_dataset(ds)], 'ev': evs}


def sweeps(ds):
    """roughly how many sweeps the alternating projection takes (used to choose data only)"""
    cells = []
    obs = {}
    for e, v in enumerate(ds.dis_videos):
        for s, o in (v['os'].items() if isinstance(v['os'], dict) else enumerate(v['os'])):
            for z in (o if isinstance(o, (list, tuple)) else [o]):
                if z is not None and not np.isnan(z):
                    cells.append((e, obs.setdefault(s, len(obs)), float(z)))
    ei, si, z = (np.array(t) for t in zip(*cells))
    E, S = len(ds.dis_videos), len(obs)
    ce, cs = np.bincount(ei, minlength=E), np.bincount(si, minlength=S)
    q = np.bincount(ei, z, E) / ce
    b = np.bincount(si, z - q[ei], S) / cs
    for n in range(1, 1001):
        r = z - q[ei] - b[si]
        mu = np.bincount(si, r, S) / cs
        w = 1 / (np.bincount(si, (r - mu[si]) ** 2, S) / cs + 1e-16)
        q2 = np.bincount(ei, w[si] * (z - b[si]), E) / np.bincount(ei, w[si], E)
        b = np.bincount(si, z - q2[ei], S) / cs
        d = np.linalg.norm(q2 - q)
        q = q2
        if d < 1e-8:
            break
    return n


def mle_case(c, sh, rng):
    good = c['i'] % 3 == 0
    if good:            # well-posed data on which the estimate must exist
        sh.update(size='big', miss=rng.choice(['none', 'few', 'few']), vals='ideal', reps=rng.choice(['one', 'two']), cont='packed', ref='yes')
    else:
        sh.update(minobs=4, minvid=3)
    ds = make_dataset(rng, sh)
    evs = []
    ms = ['MLE', 'MLE_CO', 'MLE_SO', 'DMOS_MLE', 'DMOS_MLE_CO'] if good else [['MLE', 'MLE_CO', 'MLE_SO'], ['MLE_CO', 'DMOS_MLE', 'MLE'], ['MLE', 'MLE_SO', 'DMOS_MLE_CO']][c['i'] % 3]
    for m in ms:
        kw = {'zm': rng.random() < .7} if m != 'MLE_SO' else {}
        small = len(ds.dis_videos) * len(ds.dis_videos[0]['os']) <= 40
        evs.append(run_model_event(ds, 1, m, kw, rng, {'gradient_method': rng.choice(['simplified', 'original', 'numerical'] if small else ['simplified', 'original'])}))
    if good:
        evs.append({'op': 'converged', 'd': 1, 'upto': len(evs), 'err': ''})
    if sh['reps'] == 'one':
        if sh['miss'] == 'none':
            evs.append(run_model_event(ds, 1, 'LS', {}, rng))
        evs.append(run_model_event(ds, 1, 'MLE_legacy', {}, rng, {'use_log': True} if rng.random() < .5 else {'gradient_method': rng.choice(['simplified', 'original'])}))
    for pdf in ('gaussian', 'uniform', 'logistic', 'other'):
        evs.append(loglik_event(rng, pdf))
    dss = [enc_dataset(ds)]
    if c['i'] % 7 == 2:         # least squares with many observers
        crowd = make_dataset(rng, dict(sh, size='crowd', miss='none', reps='one', vals='half'))
        dss.append(enc_dataset(crowd))
        evs.append(run_model_event(crowd, 2, 'LS', {}, rng))
    return {'ds': dss, 'ev': evs}


def loglik_event(rng, pdf):
    """the likelihood function itself, at any parameters"""
    from sureal import subjective_model as M
    small = pdf == 'logistic'
    E, S, R, C = (rng.randint(1, 2), rng.randint(1, 2), 1, 2) if small else (rng.randint(1, 5), rng.randint(1, 5), rng.randint(1, 3), rng.randint(1, 3))
    cids = [rng.randrange(C) for _ in range(E)]
    q = np.array([rng.uniform(1, 5) for _ in range(E)])
    b = np.array([rng.gauss(0, .5) for _ in range(S)])
    v = np.array([rng.uniform(.3, 1.2) for _ in range(S)])
    a = np.array([rng.uniform(.3, 1.2) for _ in range(C)])
    x = np.array([[[float('nan') if rng.random() < .2 else q[e] + b[s] + rng.uniform(-1.4, 1.4) * (v[s] + a[cids[e]]) for _ in range(R)] for s in range(S)] for e in range(E)])
    axis = rng.choice([0, 1])
    cls = rng.choice([M.MaximumLikelihoodEstimationModel, M.MaximumLikelihoodEstimationModelContentOblivious])
    res, err, msg = call(lambda: np.array(cls.loglikelihood_fcn(x, q, b, v, a, cids, axis, pdf), float))
    return {'op': 'loglik', 'pdf': pdf, 'x': [[[num(z) for z in y] for y in w] for w in x.tolist()], 'q': [num(z) for z in q], 'b': [num(z) for z in b], 'v': [num(z) for z in v], 'a': [num(z) for z in a],
            'cids': cids, 'axis': axis, 'res': tag(res), 'err': err, 'msg': msg}


def registry_event():
    """what every published name resolves to"""
    import sureal
    from sureal.subjective_model import SubjectiveModel
    names = ['MOS', 'DMOS', 'SR_MOS', 'BT500', 'SR_MOS_PCC', 'SR_MOS_SRCC', 'ZS_MOS', 'ZS_SR_MOS', 'SR_DMOS', 'ZS_SR_DMOS', 'BR_MOS',
             'BR_SR_MOS', 'P913', 'BR_SR_MOS_PCC', 'BR_SR_MOS_SRCC', 'LIVE_DMOS', 'PERSUBJECT', 'P910', 'Subject_MLE_Projection',
             'Subject_MLE_Projection2', 'MLE_CO_AP', 'MLE_CO_AP2', 'MLE', 'MLE_CO', 'MLE_SO', 'DMOS_MLE', 'DMOS_MLE_CO', 'MLE_legacy', 'LS',
             'BT_NR', 'BT_MLE', 'THURSTONE_MLE']
    import sureal.pc_subjective_model  # noqa
    got = []
    for n in names + ['NO_SUCH_MODEL', 'mos', '']:
        v, err, msg = call(lambda: find_model(n))
        got.append({'name': n, 'type': getattr(v, 'TYPE', '') if v is not None else '', 'err': err})
    return {'op': 'registry', 'err': '', 'names': got}
