"""Combination of datasets and dictionary style (C17)."""
import os
import random

from lib import pick, make_dataset, enc_dataset, enc_full, decorate, call
from d_models import reader_event


def cases(pid, rng, scens, tier, budget):
    n = int((200 if tier == 'quick' else 1600) * budget)
    return [{'sc': s} for s in pick(rng, scens, n)]


def one(rng, style, reps, name):
    return decorate(rng, make_dataset(rng, {'style': style, 'miss': rng.choice(['none', 'few', 'many']), 'reps': reps, 'vals': rng.choice(['half', 'cont', 'int5']),
                                            'size': rng.choice(['tiny', 'small', 'mid', 'o1', 'v1']), 'cont': rng.choice(['packed', 'gap']), 'order': 'shuffled',
                                            'aid': rng.choice(['perm', 'any']), 'ref': rng.choice(['yes', 'noscore']), 'keys': 'str', 'name': name}))


def run_case(pid, c, rng, wd):
    from sureal.dataset_reader import RawDatasetReader
    from sureal.tools.misc import import_python_file
    sc = c['sc']
    a = one(rng, sc['s1'], sc['r1'], 'a')
    b = one(rng, sc['s2'], sc['r2'], 'b')
    for i, d in enumerate(b.dis_videos):
        d['path'] = 'w/%d' % i
        d['note'] = 'second'
    if sc['names'] == 'same':
        b.dataset_name = a.dataset_name
    # shared observers in dict style
    if sc['s1'] == 'dict' and sc['s2'] == 'dict':
        ka = sorted({k for d in a.dis_videos for k in d['os']})
        kb = sorted({k for d in b.dis_videos for k in d['os']})
        fresh = [k for k in ka if k not in kb]
        ren = {}
        if sc['names'] == 'same':
            for k in kb:
                if fresh and rng.random() < .7:
                    ren[k] = fresh.pop()
        for d in b.dis_videos:
            d['os'] = {ren.get(k, k): v for k, v in d['os'].items()}
    va, vb = list(range(len(a.dis_videos))), list(range(len(b.dis_videos)))
    rng.shuffle(va)
    rng.shuffle(vb)
    k = {'none': 0, 'some': max(1, min(len(va), len(vb)) // 2), 'all': min(len(va), len(vb)), 'dup': min(len(va), len(vb))}[sc['overlap']]
    for i, j in zip(va[:k], vb[:k]):
        b.dis_videos[j]['path'] = a.dis_videos[i]['path']
    if sc['overlap'] == 'dup' and len(vb) > 1:
        b.dis_videos[vb[1]]['path'] = b.dis_videos[vb[0]]['path']
    encs, fulls = [enc_dataset(a), enc_dataset(b)], [enc_full(a), enc_full(b)]
    outs = []

    def comb():
        r1, r2 = RawDatasetReader(a), RawDatasetReader(b)
        if sc['via'] == 'file':
            p = os.path.join(wd, 'combined.py')
            r1.to_combined_overlap_dataset_file(p, r2)
            return import_python_file(p)
        return r1.to_combined_overlap_dataset(r2)
    nul = {'out': encs[0], 'full': fulls[0]}

    def rec(op, fn, **kw):
        def go():
            d = fn()
            return d, {'out': enc_dataset(d), 'full': enc_full(d)}
        r, err, msg = call(go)
        ev = dict({'op': op, 'err': err, 'msg': msg}, **kw)
        ev.update(r[1] if not err else nul)
        return ev, (r[0] if not err else None)
    ev, d = rec('combine', comb, a=1, b=2)
    evs = [ev]
    if d is not None and d.dis_videos:
        encs.append(ev['out'])
        evs.append(reader_event(d, 3, 'object', wd))

    def todict(ds):
        rd = RawDatasetReader(ds)
        if sc['via'] == 'file':
            p = os.path.join(wd, 'dict_%s.py' % ('a' if ds is a else 'b'))
            rd.to_dictionary_style_dataset_file(p)
            return import_python_file(p)
        return rd.to_dictionary_style_dataset()
    for i, ds in ((1, a), (2, b)):
        ev, d = rec('to_dict', lambda: todict(ds), a=i)
        evs.append(ev)
    return {'ds': encs, 'full': fulls, 'ev': evs}
