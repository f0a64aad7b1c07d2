"""Call sequences on shared objects (C12)."""
import copy
import json
import os
import random
import sys

import numpy as np

from d_pc import make_pc
from lib import make_dataset, decorate, clone, call, digest, enc_result, tag, obs_ranks, find_model, enc_dataset, text, isnum


def cases(pid, rng, scens, tier, budget):
    return [{'hist': s} for s in scens]


def build(rng):
    two = []
    for i in (0, 1):
        reps = rng.choice(['one', 'one', 'two', 'ragged'])
        ds = decorate(rng, make_dataset(rng, {'style': rng.choice(['list', 'tuple', 'dict', 'dict']), 'miss': rng.choice(['none', 'few']), 'reps': reps,
                                              'vals': rng.choice(['half', 'cont', 'outlier']), 'size': 'small', 'cont': rng.choice(['packed', 'gap']),
                                              'order': 'shuffled', 'aid': rng.choice(['perm', 'any']), 'ref': 'yes', 'minobs': 4, 'minvid': 3, 'keys': 'str',
                                              'name': 'n%d' % i}))
        two.append(ds)
    for d, e in zip(two[0].dis_videos, two[1].dis_videos):
        if rng.random() < .6:
            e['path'] = d['path']
    for ds in two:
        for d in ds.dis_videos:
            if rng.random() < .6:
                d['meta'] = {'tags': ['x', {'deep': [1]}], 'when': [2020, 1]}
    # two sets of comparisons
    for i in (0, 1):
        ds = make_pc(rng, rng.randint(3, 5), rng.randint(2, 5), rng.choice(['full', 'half']), rng.choice(['none', 'some']), aid=rng.choice(['seq', 'perm']))
        for a in ds.dis_videos:         # every pair both ways, so that the iterations converge
            for b in ds.dis_videos:
                if a is not b:
                    a['os'][('zz%d' % (a['asset_id'] < b['asset_id']), b['asset_id'])] = 1
            if rng.random() < .6:
                a['meta'] = {'tags': ['x', {'deep': [1]}]}
        two.append(ds)
    return two


OPTS = {'norm': {'normalize_final': True}, 'bias': {'bias_offset': True}, 'zs': {'zscore_mode': True}, 'reject': {'subject_rejection': True},
        'dscore': {'dscore_mode': True}, 'transform': {'transform_final': {'p1': 2.0, 'p0': 1.0}}}


class World(object):
    def __init__(self, dss, wd):
        self.ds = dss
        self.wd = wd
        self.readers = {}
        self.models = {}
        self.out = None

    def reader(self, d, o):
        from sureal.dataset_reader import RawDatasetReader
        if o == 'same':
            if d not in self.readers:
                self.readers[d] = RawDatasetReader(self.ds[d])
            return self.readers[d]
        return RawDatasetReader(self.ds[d])

    def pc_reader(self, d, o):
        from sureal.dataset_reader import PairedCompDatasetReader
        if o == 'same':
            if d + 2 not in self.readers:
                self.readers[d + 2] = PairedCompDatasetReader(self.ds[d + 2])
            return self.readers[d + 2]
        return PairedCompDatasetReader(self.ds[d + 2])

    def model(self, d, m, o, pc=False):
        k = (d, m)
        cls = find_pc(m) if pc else find_model(m)
        rd = self.pc_reader if pc else self.reader
        if o == 'same':
            if k not in self.models:
                self.models[k] = cls(rd(d, o))
            return self.models[k]
        return cls(rd(d, o))

    def do(self, c):
        """-> tagged answer of the call"""
        d, m, o = c['d'] - 1, c['m'], c['o']
        self.out = None
        op = c['op']
        if op == 'read':
            rd = self.reader(d, o)
            return {'tensor': tag(rd.opinion_score_3darray), 'n': tag(rd.num_observers), 'reps': tag(rd.max_repetitions)}
        if op == 'run':
            return enc_result(self.model(d, m, o).run_modeling(), obs_ranks(self.ds[d]))
        if op == 'run_opt':
            m, opt = m.split(':')
            return enc_result(self.model(d, m, o).run_modeling(**copy.deepcopy(OPTS[opt])), obs_ranks(self.ds[d]))
        if op == 'pc_read':
            rd = self.pc_reader(d, o)
            x = np.array(rd.opinion_score_3darray, float)
            return {'tensor': tag(x), 'n': tag(rd.num_observers), 'total': tag(np.nansum(x))}
        if op == 'pc_run':
            return enc_result(self.model(d, m, o, True).run_modeling(), {})
        if op in ('export', 'pc_export'):
            mod = self.model(d, m, o, op == 'pc_export')
            mod.run_modeling()
            self.out = mod.to_aggregated_dataset()
            return self.enc_out()
        if op == 'to_pc':
            self.out = self.reader(d, o).to_pc_dataset(tiebreak_method=m, sampling_seed=7, pc_type='within_subject', sampling_rate=.8)
            return self.enc_out()
        if op == 'to_dict':
            self.out = self.reader(d, o).to_dictionary_style_dataset()
            return self.enc_out()
        if op == 'combine':
            self.out = self.reader(d, o).to_combined_overlap_dataset(self.reader(1 - d, o))
            return self.enc_out()
        if op == 'write':
            from sureal.dataset_reader import DatasetReader
            p = os.path.join(self.wd, 'w%d.py' % d)
            DatasetReader.write_out_dataset(self.ds[d], p)
            return {'file': {'t': 'strs', 'v': open(p).read().split('\n')}}
        if op == 'sim':
            from sureal import dataset_reader as R
            E = len(self.ds[d].dis_videos)
            np.random.seed(5)
            if m == 'missing':
                rd = R.MissingDataRawDatasetReader(self.ds[d], input_dict={'missing_probability': .3, 'seed': 4})
            elif m == 'select_subject':
                rd = R.SelectSubjectRawDatasetReader(self.ds[d], input_dict={'selected_subjects': [2, 0]})
            elif m == 'select_video':
                rd = R.SelectDisVideoRawDatasetReader(self.ds[d], input_dict={'selected_dis_videos': list(range(E))[::-1]})
                return {'tensor': tag(rd.opinion_score_3darray)}
            else:
                rd = R.CorruptSubjectRawDatasetReader(self.ds[d], input_dict={'selected_subjects': [1], 'corrupt_behavior': m})
            t = tag(rd.opinion_score_3darray)
            np.random.seed(5)
            self.out = rd.to_dataset()
            return dict(self.enc_out(), tensor=t)
        raise ValueError(op)

    def enc_out(self):
        ds = self.out
        lines, nums = [], []
        for d in ds.dis_videos:
            lines.append(repr({k: v for k, v in d.items() if k not in ('groundtruth', 'groundtruth_std')}))
            for k in ('groundtruth', 'groundtruth_std'):
                if k in d and isnum(d[k]):
                    nums.append(d[k])
        return {'videos': {'t': 'strs', 'v': lines}, 'refs': {'t': 'strs', 'v': [repr(r) for r in ds.ref_videos]}, 'gt': tag(np.array(nums, dtype=float))}

    def scribble(self, op, d):
        if self.out is None or (op == 'to_dict' and self.out is self.ds[d]):
            return
        for v in self.out.dis_videos:
            spoil(v)
            v['path'] = 'gone'
            v['extra'] = 1
        for r in self.out.ref_videos:
            r['path'] = 'gone'
        if self.out.dis_videos:
            del self.out.dis_videos[0]
        if self.out.ref_videos:
            self.out.ref_videos.append(dict(self.out.ref_videos[0]))


def spoil(x):
    """modify x and everything inside it"""
    if isinstance(x, dict):
        for k in list(x):
            if isinstance(x[k], (list, dict)):
                spoil(x[k])
            elif isinstance(x[k], (int, float)) and k not in ('content_id', 'asset_id'):
                x[k] = -7.0
        x['intruder'] = 3
    elif isinstance(x, list):
        for k in range(len(x)):
            if isinstance(x[k], (list, dict)):
                spoil(x[k])
            else:
                x[k] = -7.0
        x.append(-7.0)


def find_pc(m):
    from sureal import pc_subjective_model as P
    return P.PairedCompSubjectiveModel.find_subclass(m)


def key(c):
    return '%s/%d/%s' % (c['op'], c['d'], c['m'])


def answer(w, c):
    res, err, msg = call(lambda: w.do(c))
    return {'error': {'t': 'strs', 'v': [err]}} if err else res


def fresh(dss, wd, c):
    """the answer of the same call in a process of its own, on untouched copies"""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            a = answer(World([clone(d) for d in dss], wd), dict(c, o='new'))
            with os.fdopen(wr, 'w') as f:
                json.dump(a, f)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(r) as f:
        s = f.read()
    os.waitpid(pid, 0)
    return json.loads(s) if s else {'error': {'t': 'strs', 'v': ['died']}}


def run_case(pid, c, rng, wd):
    dss = build(rng)
    pristine = [clone(d) for d in dss]
    snap = [digest(d) for d in dss]
    w = World(dss, wd)
    evs, seen = [], set()
    for k in c['hist']:
        if k['op'] != 'scribble' and key(k) not in seen:
            seen.add(key(k))
            evs.append({'op': 'session', 'call': key(k), 'fresh': True, 'snap': snap, 'ans': fresh(pristine, wd, k), 'err': ''})
    for k in c['hist']:
        if k['op'] == 'scribble':
            _, err, msg = call(lambda: w.scribble(k['m'], k['d'] - 1))
            ans = {'error': {'t': 'strs', 'v': []}}
            evs.append({'op': 'session', 'call': 'scribble', 'fresh': False, 'snap': [digest(d) for d in dss], 'ans': ans, 'err': ''})
        else:
            a = answer(w, k)
            evs.append({'op': 'session', 'call': key(k), 'fresh': False, 'snap': [digest(d) for d in dss], 'ans': a, 'err': ''})
    # at the end every call is made once more
    for k in sorted(seen):
        op, d, m = k.split('/')
        a = answer(w, {'op': op, 'd': int(d), 'm': m, 'o': rng.choice(['new', 'same'])})
        evs.append({'op': 'session', 'call': k, 'fresh': False, 'snap': [digest(x) for x in dss], 'ans': a, 'err': ''})
    return {'snap': snap, 'ev': evs}
