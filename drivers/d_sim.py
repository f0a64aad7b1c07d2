"""Simulation readers (C18)."""
import copy
import random

import numpy as np

from lib import pick, make_dataset, decorate, enc_dataset, enc_full, call, tag, num, text


def cases(pid, rng, scens, tier, budget):
    n = int((900 if tier == 'quick' else 6000) * budget)
    bad = [s for s in scens if s['fault'] != 'none']
    out = pick(rng, [s for s in scens if s['fault'] == 'none'], n * 4 // 5)
    return [{'sc': s} for s in out + [bad[i % len(bad)] for i in range(n // 5)]]


KINDS = {'missing': 'MissingDataRawDatasetReader', 'corrupt_data': 'CorruptDataRawDatasetReader', 'select_subject': 'SelectSubjectRawDatasetReader',
         'select_video': 'SelectDisVideoRawDatasetReader', 'corrupt_subject': 'CorruptSubjectRawDatasetReader',
         'synthetic': 'SyntheticRawDatasetReader', 'logistic': 'SyntheticLogisticRawDatasetReader'}


def run_case(pid, c, rng, wd):
    from sureal import dataset_reader as R
    sc = c['sc']
    k = sc['kind']
    syn = k in ('synthetic', 'logistic')
    ds = make_dataset(rng, {'style': sc['style'], 'miss': sc['miss'], 'reps': sc['reps'], 'vals': rng.choice(['half', 'cont', 'pct', 'int5']),
                            'size': rng.choice(['tiny', 'small', 'mid', 'tall', 'tall']), 'cont': 'packed' if syn else rng.choice(['packed', 'gap']),
                            'order': 'sorted' if syn and rng.random() < .5 else 'shuffled', 'aid': rng.choice(['perm', 'any', 'seq']), 'ref': 'yes', 'minobs': 2, 'minvid': 1,
                            'keys': 'str', 'refscore': rng.choice([5.0, 100, .5]) if k == 'corrupt_data' else 5.0})
    decorate(rng, ds)
    if syn and getattr(ds, 'ref_videos', None):
        pass
    enc, full = enc_dataset(ds), enc_full(ds)
    E = len(ds.dis_videos)
    names = set()
    for d in ds.dis_videos:
        names |= set(d['os']) if isinstance(d['os'], dict) else set(range(len(d['os'])))
    S = len(names)
    p = {'none': None, 'zero': 0.0, 'part': rng.choice([.1, .35, .6, .9]), 'one': 1.0}[sc['p']]
    seed = rng.choice([0, 1, rng.randrange(2 ** 31), rng.randrange(2 ** 31)]) if sc['seed'] == 'yes' else None
    par = {'q': [], 'b': [], 'v': [], 'mu': [], 'de': [], 'phi': []}
    sel, beh, inp = [], '', {}
    if k == 'missing':
        inp = {'missing_probability': p if p is not None else .5}
    elif k == 'corrupt_data':
        inp = {'corrupt_probability': p if p is not None else .5}
    elif k in ('select_subject', 'corrupt_subject'):
        sel = rng.sample(range(S), rng.randint(1, S))
        if k == 'select_subject' and rng.random() < .3:
            sel = [rng.randrange(S) for _ in range(rng.randint(1, S + 2))]
        inp = {'selected_subjects': sel}
        if k == 'corrupt_subject':
            beh = sc['beh']
            if beh:
                inp['corrupt_behavior'] = beh
            elif rng.random() < .5:
                inp['corrupt_behavior'] = None
            if p is not None:
                inp['corrupt_probability'] = p
    elif k == 'select_video':
        sel = rng.sample(range(E), rng.randint(1, E))
        if rng.random() < .3:
            sel = [rng.randrange(E) for _ in range(rng.randint(1, E + 2))]
        inp = {'selected_dis_videos': sel}
    else:
        C = len(ds.ref_videos)
        n = rng.choice([1, S, S + 3, 12])

        def dev(m):
            return [0.0] * m if sc['p'] in ('none', 'zero') else [rng.choice([0.0, .001, .5, 30.0]) if sc['p'] == 'part' else rng.uniform(.1, 3) for _ in range(m)]
        par = {'q': [rng.uniform(1, 5) for _ in range(E)], 'b': [rng.gauss(0, 1) for _ in range(n)], 'v': dev(n),
               'mu': [rng.gauss(0, 2) for _ in range(C)], 'de': dev(C), 'phi': []}
        if k == 'synthetic' and rng.random() < .4:
            par['phi'] = dev(E)
    fault = sc['fault']
    if fault == 'range':
        if not sel:
            return None
        sel = list(sel)
        sel[rng.randrange(len(sel))] = rng.choice([-1, -1, -(E if k == 'select_video' else S), E if k == 'select_video' else S, 10 ** 6])
        inp[list(inp)[0]] = sel
    elif fault == 'repeat':
        if k != 'corrupt_subject':
            return None
        sel = sel + [sel[0]]
        inp['selected_subjects'] = sel
    elif fault == 'behaviour':
        if k != 'corrupt_subject':
            return None
        beh = rng.choice(['Flip', 'random', 'shuffled', 'mean'])
        inp['corrupt_behavior'] = beh
    elif fault == 'length':
        if not syn:
            return None
        w = rng.choice(['q', 'v', 'mu', 'de'])
        par[w] = par[w] + [0.0] if rng.random() < .5 or len(par[w]) == 1 else par[w][:-1]
    seedkind = 'none'
    if syn:
        ks = [('quality_scores', 'q'), ('observer_bias', 'b'), ('observer_inconsistency', 'v'), ('content_bias', 'mu'), ('content_ambiguity', 'de')]
        inp = {a: np.array(par[b]) for a, b in ks}
        if par['phi']:
            inp['quality_ambiguity'] = np.array(par['phi'])
    if fault == 'absent':
        del inp[rng.choice(sorted(x for x in inp if x not in ('corrupt_behavior', 'quality_ambiguity') and not (k == 'corrupt_subject' and x == 'corrupt_probability')))]
    if seed is not None and k in ('missing', 'synthetic'):
        inp['seed'] = seed
        seedkind = 'int'
        if fault == 'seed' and k == 'synthetic':
            inp['seed'] = 'x1'
            seedkind = 'text'
    if fault == 'seed' and seedkind != 'text':
        return None
    state = rng.randrange(2 ** 31)
    ev = {'op': 'sim', 'd': 1, 'kind': k, 'sel': [int(x) for x in sel], 'beh': beh, 'hasp': p is not None, 'p': num(p if p is not None else .5),
          'given': sorted(inp), 'seedkind': seedkind, 'par': {a: [num(x) for x in b] for a, b in par.items()}}
    hold = {}

    def go():
        rd = getattr(R, KINDS[k])(ds, input_dict=copy.deepcopy(inp))
        hold['rd'] = rd
        np.random.seed(state)
        return rd.opinion_score_3darray
    t, err, msg = call(go)
    ev.update(err=err, msg=msg, tensor=tag(t), again={'t': 'none'}, back={'t': 'none'}, backerr='', samefields=True, nobs=-1, ndis=-1, cids=[], isref=[])
    if not err:
        rd = hold['rd']
        if seedkind == 'int':       # another state of the global generator: the seed decides
            np.random.seed(state + 1 if state < 2 ** 31 - 1 else 0)
            ev['again'] = tag(call(lambda: rd.opinion_score_3darray)[0])
        else:
            np.random.seed(state)
            ev['again'] = tag(call(lambda: rd.opinion_score_3darray)[0])
        np.random.seed(state)
        out, berr, bmsg = call(rd.to_dataset)
        ev['backerr'] = berr
        if not berr:
            ev['back'] = tag(call(lambda: R.RawDatasetReader(out).opinion_score_3darray)[0])

            def strip(f):
                return [f['attrs'], f['refs'], [d['fields'] for d in f['dis']]]
            ev['samefields'] = call(lambda: strip(enc_full(out)) == strip(full))[0] is True
        if k in ('select_subject', 'select_video'):
            ev['nobs'] = call(lambda: int(rd.num_observers))[0]
            ev['ndis'] = call(lambda: int(rd.num_dis_videos))[0]
            ev['cids'] = call(lambda: [int(x) for x in rd.content_id_of_dis_videos])[0]
            ev['isref'] = call(lambda: [bool(x) for x in rd.disvideo_is_refvideo])[0]
    return {'ds': [enc], 'ev': [ev]}
