"""Exports and files (C13)."""
import os
import random

import numpy as np

from lib import (pick, make_dataset, enc_dataset, enc_full, decorate, call, run_model_event, find_model, enc_result, obs_ranks, kwargs_of, KW0)

NOKW = {'hascids': False, 'cids': [], 'hasaids': False, 'aids': [], 'over': {'none': ''}}


def cases(pid, rng, scens, tier, budget):
    n = int((200 if tier == 'quick' else 1600) * budget)
    k = max(8, n // 8)
    raw = [s for s in scens if s['src'] != 'comparisons']
    return [{'sc': s} for s in pick(rng, raw, n) + pick(rng, [s for s in scens if s['src'] == 'comparisons'], k)]


def filt(rng, ds, which):
    kw, rec = {}, dict(NOKW, over={'none': ''})
    cids = sorted({d['content_id'] for d in ds.dis_videos})
    aids = sorted({d['asset_id'] for d in ds.dis_videos})
    if which in ('content', 'both'):
        v = rng.sample(cids, rng.randint(1, len(cids))) + ([77] if rng.random() < .3 else [])
        kw['content'] = rng.choice([list, tuple, set])(v)
        rec['hascids'], rec['cids'] = True, v
    if which in ('asset', 'both'):
        v = rng.sample(aids, rng.randint(1, len(aids)))
        kw['asset'] = rng.choice([list, tuple, set])(v)
        rec['hasaids'], rec['aids'] = True, v
    if which == 'empty':
        if rng.random() < .5:
            kw['asset'] = []
            rec['hasaids'], rec['aids'] = True, []
        else:
            kw['content'] = []
            rec['hascids'], rec['cids'] = True, []
    return kw, rec


def export_args(rng, sc, kw, rec):
    args = {}
    if 'content' in kw:
        args['aggregate_content_ids'] = kw['content']
    if 'asset' in kw:
        args['aggregate_asset_ids'] = kw['asset']
    if sc['over'] != 'none':
        over = {}
        for k, v in (('quality_width', 640), ('quality_height', 360), ('resampling_type', 'bicubic')):
            if sc['over'] == 'all' or rng.random() < .5:
                args[k] = v
                over[k] = repr(v)
        if over:
            rec['over'] = over
    elif rng.random() < .3:
        args['quality_width'] = None
    return args


def run_case(pid, c, rng, wd):
    from sureal.dataset_reader import RawDatasetReader, DatasetReader, SelectDisVideoRawDatasetReader
    from sureal.tools.misc import import_python_file
    sc = c['sc']
    if sc['src'] == 'comparisons':
        return run_pc(sc, rng, wd)
    per = sc['model'] == 'PERSUBJECT'
    sh = {'style': sc['style'], 'miss': sc['miss'], 'reps': 'one' if per or sc['model'] == 'LS' else sc['reps'], 'vals': rng.choice(['half', 'cont', 'int5']),
          'size': rng.choice(['v1', 'tiny', 'small', 'mid']) if sc['model'] == 'MOS' else rng.choice(['small', 'mid']), 'cont': rng.choice(['packed', 'gap']), 'order': 'shuffled',
          'aid': rng.choice(['perm', 'any']), 'ref': 'yes', 'minobs': 3, 'minvid': 2, 'keys': rng.choice(['str', 'int'])}
    ds = decorate(rng, make_dataset(rng, sh))
    if rng.random() < .25:          # as in a dataset file that imports a module
        ds.np = np
    if rng.random() < .25:
        ds.peak = rng.choice([float('nan'), float('inf'), [1, float('nan')]])
    if sc['style'] == 'dict':       # an observer who did not vote is absent
        for d in ds.dis_videos:
            d['os'] = {k: v for k, v in d['os'].items() if isinstance(v, (list, tuple)) or v == v} or d['os']
    enc, full = enc_dataset(ds), enc_full(ds)
    kw, rec = filt(rng, ds, sc['filter'])
    if per:
        kw, rec = {}, dict(NOKW, over={'none': ''})
    args = export_args(rng, sc, kw, rec)
    holder = {}
    mkw, mrec = kwargs_of({'norm': True} if sc['norm'] and not (per and sc['miss'] != 'none') else {}, rng)  # see DESIGN: normalising a tensor with gaps

    sel = []
    if sc['src'] == 'selection':
        sel = rng.sample(range(len(ds.dis_videos)), rng.randint(max(1, len(ds.dis_videos) - 2), len(ds.dis_videos)))

    def reader():
        return SelectDisVideoRawDatasetReader(ds, input_dict={'selected_dis_videos': list(sel)}) if sel else RawDatasetReader(ds)

    def go():
        m = find_model(sc['model'])(reader())
        holder['m'] = m
        return m.run_modeling(**mkw)
    evs = []

    def unrun():
        m = find_model(sc['model'])(reader())
        p = os.path.join(wd, 'unrun.py')
        return m.to_aggregated_dataset(**args) if rng.random() < .5 else m.to_aggregated_dataset_file(p, **args)
    _, err, msg = call(unrun)
    evs.append({'op': 'export_unrun', 'err': err, 'msg': msg})
    res, err, msg = call(go)
    evs.append({'op': 'ran' if sel else 'model', 'd': 1, 'model': sc['model'], 'kw': mrec, 'err': err, 'msg': msg,
                'res': enc_result(res, obs_ranks(ds)) if not err else {'none': {'t': 'none'}}})
    if not err:
        def exp():
            if sc['via'] == 'file':
                p = os.path.join(wd, 'exported.py')
                holder['m'].to_aggregated_dataset_file(p, **args)
                return enc_full(import_python_file(p))
            return enc_full(holder['m'].to_aggregated_dataset(**args))
        out, err, msg = call(exp)
        evs.append({'op': 'export_per' if per else 'export', 'd': 1, 'prev': 2, 'kw': rec, 'err': err, 'msg': msg, 'listy': sc['style'] != 'dict', 'sel': sel,
                    'out': out or full})
    # files
    p = os.path.join(wd, 'plain.py')

    def rt():
        DatasetReader.write_out_dataset(ds, p)
        return enc_full(import_python_file(p))
    out, err, msg = call(rt)
    evs.append({'op': 'load', 'd': 1, 'kw': dict(NOKW), 'err': err, 'msg': msg, 'out': out or full})
    kw, rec = filt(rng, ds, rng.choice(['content', 'asset', 'both', sc['filter']]))

    def load():
        m = find_model(rng.choice(['MOS', 'P910', 'PERSUBJECT'])).from_dataset_file(p, content_ids=kw.get('content'), asset_ids=kw.get('asset'))
        return enc_full(m.dataset_reader.dataset)
    out, err, msg = call(load)
    evs.append({'op': 'load', 'd': 1, 'kw': rec, 'err': err, 'msg': msg, 'out': out or full})
    return {'ds': [enc], 'full': [full], 'ev': evs}


def run_pc(sc, rng, wd):
    from sureal.dataset_reader import PairedCompDatasetReader, DatasetReader
    from sureal.tools.misc import import_python_file
    import d_pc
    import sureal.pc_subjective_model  # noqa
    d_pc.time.sleep = lambda s: None
    ds = decorate(rng, d_pc.make_pc(rng, sc['n'], 6, 'full', 'some', sc['aid']))
    for i in range(sc['n']):            # everybody has won against everybody: the models have a solution
        for j in range(sc['n']):
            if i != j:
                ds.dis_videos[i]['os'][('extra%d' % i, ds.dis_videos[j]['asset_id'])] = 1
    full = enc_full(ds)
    kw, rec = filt(rng, ds, sc['filter'])
    args = export_args(rng, sc, kw, rec)
    p = os.path.join(wd, 'pc.py')
    evs, holder = [], {}

    def exp(m, q):
        if sc['via'] == 'file':
            m.to_aggregated_dataset_file(q, **args)
            return enc_full(import_python_file(q))
        return enc_full(m.to_aggregated_dataset(**args))
    _, err, msg = call(lambda: exp(find_model(sc['model'])(PairedCompDatasetReader(ds)), os.path.join(wd, 'unrun.py')))
    evs.append({'op': 'export_unrun', 'err': err, 'msg': msg})

    def go():
        holder['m'] = find_model(sc['model'])(PairedCompDatasetReader(ds))
        return holder['m'].run_modeling()
    res, err, msg = call(go, 60)
    evs.append({'op': 'ran', 'd': 1, 'model': sc['model'], 'err': err, 'msg': msg, 'res': enc_result(res, {}) if not err else {'none': {'t': 'none'}}})
    if not err:
        out, err, msg = call(lambda: exp(holder['m'], os.path.join(wd, 'exported.py')))
        evs.append({'op': 'export', 'd': 1, 'prev': 2, 'kw': rec, 'err': err, 'msg': msg, 'sel': [], 'out': out or full})

    def rt():
        DatasetReader.write_out_dataset(ds, p)
        return enc_full(import_python_file(p))
    out, err, msg = call(rt)
    evs.append({'op': 'load', 'd': 1, 'kw': dict(NOKW), 'err': err, 'msg': msg, 'out': out or full})
    kw, rec = filt(rng, ds, rng.choice(['none', 'content', 'asset', 'both']))
    if 'asset' in kw and rng.random() < .5:
        kw['asset'] = rec['aids'] = list(range(rng.randint(1, sc['n'])))

    def load():
        m = find_model(sc['model']).from_dataset_file(p, content_ids=kw.get('content'), asset_ids=kw.get('asset'))
        assert type(m.dataset_reader) is PairedCompDatasetReader, type(m.dataset_reader)
        return enc_full(m.dataset_reader.dataset)
    out, err, msg = call(load)
    evs.append({'op': 'pc_load', 'd': 1, 'kw': rec, 'err': err, 'msg': msg, 'out': out or full})
    return {'ds': [], 'full': [full], 'ev': evs}
