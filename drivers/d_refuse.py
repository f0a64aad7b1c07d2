"""Acceptance and refusal of datasets (C02)."""
import copy
import random

import numpy as np

from lib import pick, make_dataset, call, num, isnum, DS

BADOS = ['12345', 3, None, {1, 2, 3}, np.array([1., 2., 3.]), 4.5]


def cases(pid, rng, scens, tier, budget):
    n = int((1700 if tier == 'quick' else 8000) * budget)
    one = [s for s in scens if s['f2'] == 'none']
    two = [s for s in scens if s['f2'] != 'none']
    k = max(n * 3 // 4, 1)
    out = (pick(rng, one, len(one)) * (k // len(one) + 1))[:k]       # every single fault, on several datasets
    return [{'sc': s} for s in out + pick(rng, two, max(n - len(out), n // 4))]


def base(rng, sc):
    if sc['kind'] == 'pc':
        E = rng.choice([rng.randint(2, 6), rng.randint(2, 6), rng.randint(9, 14)])
        names = rng.sample(['zed', 'amy', 'bob', '7', 'A'], rng.randint(1, 4))
        ds = DS()
        nc = rng.randint(1, 3)
        ds.ref_videos = [{'content_id': c, 'content_name': 'n', 'path': 'r%d' % c} for c in range(nc)]
        aids = list(range(E))
        rng.shuffle(aids)
        ds.dis_videos = []
        for e in range(E):
            os_ = {}
            for nme in names:
                for b in range(e):
                    if rng.random() < .6:
                        os_[(nme, aids[b])] = rng.choice([0, .5, 1, 1.0])
            ds.dis_videos.append({'content_id': rng.randrange(nc), 'asset_id': aids[e], 'path': 'p%d' % e, 'os': os_})
        if not any(d['os'] for d in ds.dis_videos):
            ds.dis_videos[-1]['os'] = {(names[0], aids[0]): 1}
        ds.dataset_name = 'pcset'
        return ds
    sh = {'style': sc['style'], 'miss': rng.choice(['none', 'few']), 'reps': rng.choice(['one', 'one', 'two']), 'vals': 'half',
          'size': rng.choice(['v1', 'tiny', 'small', 'small', 'tall', 'crowd']), 'cont': rng.choice(['packed', 'gap']), 'order': 'shuffled',
          'aid': 'any', 'ref': rng.choice(['yes', 'no', 'noscore'])}
    ds = make_dataset(rng, sh)
    if sc['style'] != 'dict' and rng.random() < .4:      # list and tuple may be mixed
        for d in ds.dis_videos:
            if rng.random() < .5:
                d['os'] = tuple(d['os']) if isinstance(d['os'], list) else list(d['os'])
    return ds


def pos(rng, ds, where):
    n = len(ds.dis_videos)
    return {'first': 0, 'last': n - 1, 'mid': rng.randrange(n)}[where]


def inject(rng, ds, fault, where):
    i = pos(rng, ds, where)
    d = ds.dis_videos[i]
    j = {'first': 0, 'last': len(ds.ref_videos) - 1, 'mid': rng.randrange(len(ds.ref_videos))}[where]
    r = ds.ref_videos[j]
    if fault == 'ref_neg':
        c = r['content_id']
        r['content_id'] = -1 - rng.randrange(3)
        for x in ds.dis_videos:
            if x['content_id'] == c:
                x['content_id'] = r['content_id']
    elif fault == 'ref_frac':
        c = r['content_id']
        r['content_id'] = (c if isinstance(c, int) else 0) + .5
        for x in ds.dis_videos:
            if x['content_id'] == c:
                x['content_id'] = r['content_id']
    elif fault == 'ref_str':
        c = r['content_id']
        r['content_id'] = str(c)
        for x in ds.dis_videos:
            if x['content_id'] == c:
                x['content_id'] = str(c)
    elif fault == 'dis_unknown':
        used = {x['content_id'] for x in ds.ref_videos}
        # a gap inside the range of ids when there is one
        ints = [x for x in used if isinstance(x, int)]
        gaps = [x for x in range(max(ints + [0])) if x not in used]
        d['content_id'] = rng.choice(gaps) if gaps and rng.random() < .7 else max(ints + [0]) + rng.randint(1, 3)
    elif fault == 'no_os':
        d.pop('os', None)
    elif fault == 'bad_os':
        d['os'] = copy.deepcopy(rng.choice(BADOS))
    elif fault == 'len':
        o = d.get('os')
        if isinstance(o, (list, tuple)):
            l = list(o)
            l = l[:-1] if rng.random() < .5 and len(l) > 1 else l + [3.0]
            d['os'] = type(o)(l)
    elif fault == 'mix':
        if isinstance(d.get('os'), dict) and len(ds.dis_videos) > 1:
            n = len(d['os'])
            d['os'] = [2.0] * max(1, n + rng.randint(-1, 1))
    elif fault == 'pc_list':
        d['os'] = [1, 0, .5]
    elif fault == 'pc_subj':
        o = d.setdefault('os', {})
        if isinstance(o, dict):
            o[(rng.choice([3, None, 2.0, ('a',)]), 0)] = 1
    elif fault == 'pc_key':
        o = d.setdefault('os', {})
        if isinstance(o, dict):
            o[('amy', rng.choice(['1', 1.0, None, .5]))] = 1
    elif fault == 'pc_plainkey':
        o = d.setdefault('os', {})
        if isinstance(o, dict):
            o['amy'] = 1
    elif fault == 'pc_aid':
        d['asset_id'] = rng.choice([-1, len(ds.dis_videos), len(ds.dis_videos) + 5])
    elif fault == 'pc_val':
        o = d.get('os')
        if isinstance(o, dict):
            # a legal pair with an illegal value
            others = [x['asset_id'] for x in ds.dis_videos if x is not d and isinstance(x['asset_id'], int)]
            if others:
                o[(rng.choice(['amy', 'bob']), rng.choice(others))] = rng.choice([2, -1, .25, .75, .1, 1.5, float('nan'), -.5, 1e-9])
    elif fault == 'none':
        pass


def structure(ds):
    def kind(x):
        return 'int' if isinstance(x, (int, np.integer)) and not isinstance(x, bool) else type(x).__name__

    def val(x):
        return int(x) if kind(x) == 'int' else 0
    dis = []
    for d in ds.dis_videos:
        o = d.get('os')
        keys = []
        if isinstance(o, dict):
            for k, v in o.items():
                if isinstance(k, tuple) and len(k) == 2:
                    sk, ak, a = type(k[0]).__name__, kind(k[1]), val(k[1])
                else:
                    sk, ak, a = 'nopair', 'nopair', 0
                keys.append({'sk': sk, 'ak': ak, 'a': a, 'v': num(v) if isnum(v) else [9]})
        dis.append({'ck': kind(d['content_id']), 'cid': val(d['content_id']), 'aid': val(d['asset_id']),
                    'osk': 'none' if 'os' not in d else type(o).__name__, 'n': len(o) if hasattr(o, '__len__') else 0, 'keys': keys})
    return {'refs': [{'ck': kind(r['content_id']), 'cid': val(r['content_id'])} for r in ds.ref_videos], 'dis': dis}


def run_case(pid, c, rng, wd):
    from sureal.dataset_reader import RawDatasetReader, PairedCompDatasetReader
    sc = c['sc']
    ds = base(rng, sc)
    inject(rng, ds, sc['f1'], sc['p1'])
    inject(rng, ds, sc['f2'], sc['p2'])
    st = structure(ds)
    cls = PairedCompDatasetReader if sc['kind'] == 'pc' else RawDatasetReader
    rd, err, msg = call(lambda: cls(ds))
    ev = {'op': 'construct', 'kind': sc['kind'], 'st': st, 'err': err, 'msg': msg, 'read': '', 'obs': ''}
    if not err:
        _, ev['read'], m1 = call(lambda: rd.opinion_score_3darray)
        _, ev['obs'], m2 = call(lambda: (rd._get_list_observers(), rd.num_observers))
        ev['msg'] = m1 or m2
    return {'ev': [ev]}
