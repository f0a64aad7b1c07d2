"""Paired comparisons (C14, C15, C16)."""
import copy
import math
import os
import random
import time

import numpy as np

from lib import pick, make_dataset, enc_dataset, call, num, tag, itag, isnum, DS, find_model, enc_result, NAMES

N = {'C14': 260, 'C15': 160, 'C16': 64}


def cases(pid, rng, scens, tier, budget):
    n = int(N[pid] * (8 if tier == 'thorough' else 1) * budget)
    if pid == 'C14':
        bad = [s for s in scens if any(v in ('between', 'bogus', 'neg', 'big', 'both', 'short') for v in s.values() if isinstance(v, str))]
        good = [s for s in scens if s not in bad] if len(scens) < 4000 else None
        if good is None:
            import json
            b = {json.dumps(s, sort_keys=True) for s in bad}
            good = [s for s in scens if json.dumps(s, sort_keys=True) not in b]
        return [{'sc': s} for s in pick(rng, good, n * 3 // 4) + pick(rng, bad, n // 4)]
    return [{'sc': s} for s in pick(rng, scens, n)]


# ------------------------------------------------------------------ encoding

def pc_ranks(ds):
    ks = {k[0] for d in ds.dis_videos for k in d['os']}
    return {k: i + 1 for i, k in enumerate(sorted(ks, key=lambda x: x if isinstance(x, str) else repr(x)))}


def enc_pc(ds):
    rk = pc_ranks(ds)
    dis = []
    for d in ds.dis_videos:
        votes = []
        for k, v in d['os'].items():
            if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], (int, np.integer)):
                votes.append({'k': str(k[0]), 'o': rk[k[0]], 'a': int(k[1]), 'v': num(v) if isnum(v) else [9]})
            else:
                votes.append({'k': repr(k), 'o': 0, 'a': -1, 'v': [9]})
        dis.append({'aid': d['asset_id'], 'cid': d['content_id'], 'path': str(d.get('path')), 'votes': votes})
    return {'dis': dis, 'refs': [{'cid': r['content_id'], 'path': r['path']} for r in ds.ref_videos],
            'name': str(getattr(ds, 'dataset_name', ''))}


# ------------------------------------------------------------------ C14

def options(rng, sc, ds):
    n = len(ds.dis_videos)
    kw, opt = {}, {'type': sc['type'], 'tie': sc['tie'], 'rate': [], 'rates': [], 'hasrates': False, 'coin': [], 'coins': [], 'hascoins': False,
                   'noise': [], 'noises': [], 'hasnoises': False, 'means': [], 'hasmeans': False}
    if sc['type']:
        kw['pc_type'] = sc['type']
    if sc['tie']:
        kw['tiebreak_method'] = sc['tie']

    def scalar(key, rec, v):
        kw[key] = v
        opt[rec] = [num(v)]

    def vec(key, rec, v):
        kw[key] = v
        opt[rec] = [num(a) for a in v]
        opt['has' + rec] = True
    m = sc['rate']
    if m in ('zero', 'part', 'one', 'more', 'neg'):
        scalar('sampling_rate', 'rate', {'zero': 0.0, 'part': rng.choice([.3, .5, .85, .95]), 'one': 1, 'more': rng.choice([2, 1.5, 3.0]), 'neg': -.5}[m])
    if m in ('per_asset', 'both', 'short'):
        vec('per_asset_sampling_rates', 'rates', [rng.choice([0, 0, 1, 1, 2, .5]) for _ in range(n - (m == 'short'))])
        if m == 'both':
            scalar('sampling_rate', 'rate', .5)
    m = sc['coin']
    if m in ('zero', 'part', 'one', 'neg', 'big'):
        scalar('cointoss_rate', 'coin', {'zero': 0.0, 'part': rng.choice([.2, .5]), 'one': 1.0, 'neg': -.1, 'big': 1.25}[m])
    if m in ('per_asset', 'both', 'short'):
        vec('per_asset_cointoss_rates', 'coins', [rng.choice([0, 0, 1, 1, .5]) for _ in range(n - (m == 'short'))])
        if m == 'both':
            scalar('cointoss_rate', 'coin', .5)
    m = sc['noise']
    if m in ('zero', 'small', 'large', 'neg'):
        scalar('noise_level', 'noise', {'zero': 0, 'small': 1e-4, 'large': 3.0, 'neg': -1.0}[m])
    if m in ('per_asset', 'both', 'short'):
        vec('per_asset_noise_levels', 'noises', [rng.choice([0, 0, 1e-4, 2.0]) for _ in range(n - (m == 'short'))])
        if m == 'both':
            scalar('noise_level', 'noise', .5)
    m = sc['means']
    if m in ('given', 'short'):
        vec('per_asset_mean_scores', 'means', [rng.choice([1.0, 2.5, 3, 4.25]) for _ in range(n - (m == 'short'))])
    if sc['seed']:
        kw['sampling_seed'] = rng.choice([0, 0, 1, rng.randrange(10 ** 6), rng.randrange(10 ** 6), rng.randrange(10 ** 12)])
    return kw, opt


def run_c14(c, rng, wd):
    from sureal.dataset_reader import RawDatasetReader
    sc = dict(c['sc'], style=rng.choice(['list', 'tuple', 'dict']), miss=rng.choice(['none', 'few', 'many']), seed=rng.random() < .6)
    ds = make_dataset(rng, {'style': sc['style'], 'miss': sc['miss'], 'reps': 'one', 'vals': rng.choice(['int5', 'half', 'cont']),
                            'size': rng.choice(['mid', 'crowd'] if 'per_asset' in (sc['rate'], sc['coin']) else ['tiny', 'small', 'mid', 'mid']), 'cont': rng.choice(['packed', 'gap']), 'order': 'shuffled',
                            'aid': rng.choice(['seq', 'perm', 'any']), 'ref': rng.choice(['yes', 'noscore']), 'keys': 'str'})
    if rng.random() < .2:
        rng.shuffle(ds.dis_videos)
    kw, opt = options(rng, sc, ds)
    random.seed(rng.randrange(10 ** 6))
    via = rng.choice(['object', 'object', 'file'])

    def go():
        rd = RawDatasetReader(ds)
        if via == 'file':
            from sureal.tools.misc import import_python_file
            p = os.path.join(wd, 'pc_%d.py' % c['i'])
            rd.to_pc_dataset_file(p, **kw)
            return import_python_file(p)
        return rd.to_pc_dataset(**kw)
    enc = enc_dataset(ds)
    out, err, msg = call(go)
    ev = {'op': 'to_pc', 'd': 1, 'opt': opt, 'via': via, 'err': err, 'msg': msg,
          'res': enc_pc(out) if not err else {'dis': [], 'refs': [], 'name': ''}}
    evs = [ev]
    if sc['seed'] and not err:
        random.random()
        out2, err2, _ = call(lambda: RawDatasetReader(ds).to_pc_dataset(**kw))
        evs.append({'op': 'to_pc_again', 'err': err2, 'same': not err2 and same_pc(enc_pc(out2), ev['res'])})
    return {'ds': [enc], 'ev': evs}


def same_pc(a, b):
    def key(x):
        return [sorted((v['k'], v['a'], tuple(v['v'])) for v in d['votes']) for d in x['dis']]
    return key(a) == key(b)


# ------------------------------------------------------------------ datasets

def make_pc(rng, n, s, fill, ties, aid='seq', dup=False, spread='close'):
    names = rng.sample(NAMES, s)
    q = [rng.gauss(0, {'close': .6, 'wide': 1.3}[spread]) for _ in range(n)]
    aids = list(range(n))
    if aid == 'perm':
        rng.shuffle(aids)
    ds = DS()
    ds.dataset_name = 'pc'
    nc = rng.randint(1, 2)
    ds.ref_videos = [{'content_id': k, 'content_name': 'n', 'path': 'r%d' % k} for k in range(nc)]
    ds.dis_videos = [{'content_id': rng.randrange(nc), 'asset_id': aids[e], 'path': 'p%d' % e, 'os': {}} for e in range(n)]
    p = {'full': 1, 'half': .5, 'sparse': .25}[fill]
    order = [(o, i, j) for o in names for i in range(n) for j in range(i)]
    rng.shuffle(order)
    for o, i, j in order:
        if rng.random() > p:
            continue
        if ties == 'some' and rng.random() < .2:
            v = .5
        else:
            v = 1 if rng.random() < 1 / (1 + math.exp(q[j] - q[i])) else 0
        w = rng.random()
        a, b, v = (i, j, v) if w < .5 else (j, i, 1 - v)
        ds.dis_videos[a]['os'][(o, aids[b])] = v
        if dup and rng.random() < .5:
            ds.dis_videos[b]['os'][(o, aids[a])] = 1 - v
    if not any(d['os'] for d in ds.dis_videos):
        ds.dis_videos[0]['os'][(names[0], aids[1])] = 1
    return ds


def run_c15(c, rng, wd):
    from sureal.dataset_reader import RawDatasetReader, PairedCompDatasetReader
    sc = c['sc']
    if sc['src'] == 'converted':
        raw = make_dataset(rng, {'style': rng.choice(['list', 'dict']), 'miss': 'few', 'reps': 'one', 'vals': rng.choice(['int5', 'cont']),
                                 'size': rng.choice(['tiny', 'small']), 'cont': 'packed', 'order': 'shuffled',
                                 'aid': sc['aid'], 'keys': 'str'})
        ds, err, msg = call(lambda: RawDatasetReader(raw).to_pc_dataset(pc_type='within_subject', sampling_seed=rng.randrange(99),
                                                                       tiebreak_method=rng.choice(['even_split', 'coin_toss'])))
        if err:
            return {'ds': [enc_pc(make_pc(rng, 2, 1, 'full', 'none'))], 'ev': [{'op': 'pc_reader', 'd': 1, 'err': err, 'msg': msg, 'res': {'none': {'t': 'none'}}}]}
        if not any(d['os'] for d in ds.dis_videos):
            return None
    else:
        ds = make_pc(rng, sc['n'], sc['s'], sc['fill'], sc['ties'], sc['aid'], sc['dup'])
    enc = enc_pc(ds)
    rk = pc_ranks(ds)
    via = rng.choice(['object', 'file'])

    def go():
        d = ds
        if via == 'file':
            from sureal.tools.misc import import_python_file
            from sureal.dataset_reader import DatasetReader
            p = os.path.join(wd, 'pcr_%d.py' % c['i'])
            DatasetReader.write_out_dataset(ds, p)
            d = import_python_file(p)
        rd = PairedCompDatasetReader(d)
        other = PairedCompDatasetReader(make_pc(random.Random(5), 2, 1, 'full', 'none'))
        t1 = tag(rd.opinion_score_3darray)
        _ = other.opinion_score_3darray
        return {'tensor': t1, 'tensor2': tag(rd.opinion_score_3darray), 'num_observers': itag(rd.num_observers),
                'observers': tag(list(rd._get_list_observers()), rk)}
    res, err, msg = call(go)
    return {'ds': [enc], 'ev': [{'op': 'pc_reader', 'd': 1, 'err': err, 'msg': msg, 'res': res or {'none': {'t': 'none'}}}]}


def run_c16(c, rng, wd):
    from sureal.dataset_reader import PairedCompDatasetReader
    import sureal.pc_subjective_model  # noqa
    time.sleep = lambda s: None        # the solvers pause between iterations to print progress
    sc = c['sc']
    ds = make_pc(rng, sc['n'], sc['s'], sc['fill'], sc['ties'], rng.choice(['seq', 'perm']), False, sc['spread'])
    must = sc['fill'] == 'full' and sc['spread'] == 'close' and sc['s'] >= 10
    if must:     # everybody has won against everybody at least twice
        for i in range(sc['n']):
            for j in range(sc['n']):
                if i != j:
                    for k in range(2):
                        ds.dis_videos[i]['os'][('extra%d_%d' % (i, k), ds.dis_videos[j]['asset_id'])] = 1
    enc = enc_pc(ds)
    evs = []

    def ev(model, prev=0, **kw):
        res, err, msg = call(lambda: find_model(model)(PairedCompDatasetReader(ds)).run_modeling(**kw), 60)
        evs.append({'op': 'pc_model', 'd': 1, 'model': model, 'src': 'ds', 'zs': bool(kw.get('zscore_output')), 'simp': kw.get('use_simplified_lbda', True),
                    'prev': prev, 'must': must, 'err': err, 'msg': msg, 'res': enc_result(res, {}) if not err else {'none': {'t': 'none'}}})
    ev('BT_MLE')
    ev('BT_NR')
    ev('BT_NR', prev=2, zscore_output=True)
    ev('THURSTONE_MLE')
    ev('THURSTONE_MLE', prev=4, zscore_output=True)
    ev('THURSTONE_MLE', use_simplified_lbda=False)
    return {'ds': [enc], 'ev': evs}


def run_case(pid, c, rng, wd):
    return {'C14': run_c14, 'C15': run_c15, 'C16': run_c16}[pid](c, rng, wd)
