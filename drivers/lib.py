"""Encoding of sureal inputs/outputs as trace data, and seeded construction of datasets.

Nothing in here judges a result: expected values live only in the TLA+ specification."""
import contextlib
import copy
import io
import json
import math
import random
import signal
import time
import traceback
import warnings

import numpy as np

SCALE = 10 ** 20


def num(x):
    """float/int -> limbs of the specification's fixed-point reals"""
    if isinstance(x, (bool, np.bool_)):
        x = int(x)
    if isinstance(x, (int, np.integer)):
        n = int(x) * SCALE
    else:
        x = float(x)
        if math.isnan(x):
            return [2]
        if math.isinf(x):
            return [3] if x > 0 else [-3]
        p, q = x.as_integer_ratio()
        n = (abs(p) * SCALE * 2 + q) // (2 * q)
        if p < 0:
            n = -n
    if n == 0:
        return [0]
    s = 1 if n > 0 else -1
    n = abs(n)
    out = [s]
    while n:
        n, r = divmod(n, 10000)
        out.append(r)
    return out


def isnum(x):
    return isinstance(x, (int, float, np.integer, np.floating)) and not isinstance(x, (bool, np.bool_))


def isbool(x):
    return isinstance(x, (bool, np.bool_))


def tag(v, ranks=None):
    """tagged encoding of any returned value"""
    if v is None:
        return {'t': 'none'}
    if isbool(v):
        return {'t': 'bool', 'v': bool(v)}
    if isnum(v):
        return {'t': 'num', 'v': num(v)}
    if isinstance(v, str):
        return {'t': 'str', 'v': v}
    if isinstance(v, np.ndarray):
        if v.ndim == 0:
            return tag(v.item(), ranks)
        if v.dtype == bool:
            if v.ndim == 1:
                return {'t': 'bools', 'v': [bool(a) for a in v]}
            return {'t': 'other', 'v': 'bool array'}
        if v.dtype.kind in 'iuf':
            k = {1: 'vec', 2: 'mat', 3: 'ten'}.get(v.ndim)
            if k is None:
                return {'t': 'other', 'v': 'ndim %d' % v.ndim}
            return {'t': k, 'v': nest(v.tolist())}
        if v.dtype.kind == 'O':
            return tag(v.tolist(), ranks)
        return {'t': 'other', 'v': str(v.dtype)}
    if hasattr(v, 'tolist') and hasattr(v, 'index'):  # pandas series
        try:
            return tag(np.array(v.tolist()), ranks)
        except Exception:
            return {'t': 'other', 'v': type(v).__name__}
    if isinstance(v, (list, tuple)):
        v = list(v)
        if ranks is not None and all(isinstance(a, (str, int)) and a in ranks for a in v):
            return {'t': 'ranks', 'v': [ranks[a] for a in v]}
        if all(isbool(a) for a in v) and v:
            return {'t': 'bools', 'v': [bool(a) for a in v]}
        if all(isinstance(a, str) for a in v) and v:
            return {'t': 'strs', 'v': v}
        if all(isnum(a) for a in v):
            return {'t': 'vec', 'v': [num(a) for a in v]}
        try:
            a = np.array([np.asarray(u, dtype=float) for u in v])
            if a.dtype.kind == 'f' and a.ndim in (1, 2, 3):
                return tag(a)
        except Exception:
            pass
        if all(isinstance(a, (list, tuple, np.ndarray)) for a in v):
            ts = [tag(a) for a in v]
            if all(t['t'] == 'vec' for t in ts):
                return {'t': 'mat', 'v': [t['v'] for t in ts]}
        return {'t': 'other', 'v': 'list'}
    return {'t': 'other', 'v': type(v).__name__}


def nest(l):
    return [nest(a) for a in l] if isinstance(l, list) else num(l)


def ints(v):
    return {'t': 'ints', 'v': [int(a) for a in v]}


def itag(v):
    return {'t': 'int', 'v': int(v)} if isinstance(v, (int, np.integer)) and not isbool(v) else tag(v)


class Timeout(Exception):
    pass


@contextlib.contextmanager
def limit(seconds):
    def handler(signum, frame):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, handler)
    t0, left = time.time(), signal.alarm(int(seconds))
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        if left:                        # the limit of the whole case
            signal.alarm(max(1, int(left - (time.time() - t0))))


HANGS = [0]


def call(fn, seconds=120):
    """(value, error name, message); every exception of the code under test is an observation"""
    buf = io.StringIO()
    if HANGS[0]:            # code that hangs: do not spend the whole budget on it
        seconds = min(seconds, 20 if HANGS[0] < 3 else 4)
    try:
        with limit(seconds), contextlib.redirect_stdout(buf), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                return fn(), '', ''
    except Timeout:
        HANGS[0] += 1
        return None, 'Timeout', ''
    except (KeyboardInterrupt, MemoryError):
        raise
    except SystemExit as e:
        return None, 'SystemExit', str(e)
    except BaseException as e:
        return None, type(e).__name__, (str(e) + ' @ ' + traceback.format_exc().strip().split('\n')[-3].strip())[:300]


# ---------------------------------------------------------------- datasets

class DS(object):
    pass


def clone(ds):
    new = DS()
    for k, v in ds.__dict__.items():
        setattr(new, k, copy.deepcopy(v))
    return new


def obs_ranks(ds):
    keys = set()
    for d in ds.dis_videos:
        if isinstance(d.get('os'), dict):
            for k in d['os']:
                keys.add(k[0] if isinstance(k, tuple) else k)
    try:
        return {k: i + 1 for i, k in enumerate(sorted(keys))}
    except TypeError:
        return {k: i + 1 for i, k in enumerate(sorted(keys, key=repr))}


def enc_vote(k, o, v):
    rep = isinstance(v, (list, tuple, np.ndarray))
    vs = list(v) if rep else [v]
    return {'k': str(k), 'o': o, 'v': [num(a) if isnum(a) else [9] for a in vs], 'rep': rep,
            'kind': type(v).__name__ if rep else 'scalar'}


def enc_dataset(ds, ranks=None):
    if ranks is None:
        ranks = obs_ranks(ds)
    dis = []
    for d in ds.dis_videos:
        os_ = d.get('os', None) if 'os' in d else None
        rec = {'cid': d['content_id'] if isinstance(d.get('content_id'), (int, np.integer)) else -99,
               'aid': d['asset_id'] if isinstance(d.get('asset_id'), (int, np.integer)) else -99,
               'path': str(d.get('path'))}
        if 'os' not in d:
            rec['style'] = 'none'
            rec['votes'] = []
        elif isinstance(os_, dict):
            rec['style'] = 'dict'
            rec['votes'] = [enc_vote(k, ranks[k], v) for k, v in os_.items() if not isinstance(k, tuple)]
        elif isinstance(os_, (list, tuple)):
            rec['style'] = 'list' if isinstance(os_, list) else 'tuple'
            rec['votes'] = [enc_vote('', i + 1, v) for i, v in enumerate(os_)]
        else:
            rec['style'] = 'other'
            rec['votes'] = []
        dis.append(rec)
    hasref = getattr(ds, 'ref_score', None) is not None
    return {'name': str(getattr(ds, 'dataset_name', '')), 'hasref': hasref,
            'ref': num(ds.ref_score) if hasref else [0],
            'refs': [{'cid': r['content_id'], 'path': r['path']} for r in ds.ref_videos],
            'dis': dis}


NAMES = ['zoe', 'Bob', 'alice', '10', '9', 'Ann lee', 'carl_2', '007', 'mia', 'x1', 'x10', 'x2', 'Yan', 'yan',
         'q', 'r5', 'r50', 'r6', 'AA', 'Aa', 'aa', 'b-1', 'b_1', 'k', 'm0', 'm1', 'm2', 'm3', 'm4', 'm5', 'm6', 'm7', 'm8']

SIZES = {'v1': ((1, 1), (3, 5)), 'o1': ((3, 5), (1, 1)), 'tiny': ((2, 3), (2, 3)), 'small': ((4, 6), (3, 5)),
         'mid': ((6, 9), (5, 8)), 'crowd': ((5, 8), (21, 26)), 'tall': ((16, 24), (4, 6)), 'big': ((18, 24), (12, 18)),
         'edge': ((20, 20), (5, 5)), 'edge8': ((5, 5), (12, 15))}


def rint(rng, ab):
    return rng.randint(ab[0], ab[1])


def gen_scores(rng, E, S, kind, R):
    """[e][s] -> list of R votes"""
    if kind == 'edge':          # one observer exactly at a BT.500 threshold; one 2-sigma vote per video
        up, down = rng.choice([(13, 7), (7, 13), (1, 1), (1, 1), (12, 8)] if E == 40 else [(13, 7), (7, 13), (12, 8), (1, 0)])
        sg = [5.0] * up + [-5.0] * down
        mine = dict(zip(rng.sample(range(E), len(sg)), sg))
        who = rng.randrange(S)
        out = []
        for e in range(E):
            o = who if e in mine else rng.choice([s for s in range(S) if s != who])
            d = mine.get(e) or rng.choice([5.0, -5.0])
            base = rng.randint(0, 4)
            out.append([[base + (d if s == o else 0.0)] for s in range(S)])
        return out
    if kind == 'edge8':         # one observer's rank correlation is exactly 0.7
        odd = rng.choice([(1, 2, 4, 5, 3), (1, 2, 5, 3, 4), (3, 1, 2, 4, 5), (2, 3, 1, 4, 5)])
        who = rng.randrange(S)
        seq = rng.sample(range(5), 5)
        return [[[float(odd[k] if s == who else k + 1) + (rng.choice([0, .25, -.25]) if s != who else 0)] for s in range(S)] for k in seq]
    q = [rng.uniform(1.3, 4.7) for _ in range(E)]
    b = [rng.gauss(0, .4) for _ in range(S)]
    v = [rng.uniform(.3, .9) for _ in range(S)]
    out = []
    roles = ['ok'] * S
    if kind in ('outlier', 'extreme'):
        for s in rng.sample(range(S), max(1, S // (4 if kind == 'outlier' else 6))):
            roles[s] = 'wild'
    if kind == 'inverse':
        bad = rng.sample(range(S), max(1, S // 3))
        for s in bad:
            roles[s] = rng.choice(['inv', 'noise', 'inv'])
    if kind == 'constobs':
        roles[rng.randrange(S)] = 'const'
    consts = [rng.randint(1, 5) for _ in range(S)]
    for e in range(E):
        row = []
        crow = kind == 'constrow' and rng.random() < .5
        cval = rng.randint(1, 5)
        base = rng.randint(0, 4)
        up = rng.randrange(S)
        for s in range(S):
            cell = []
            for r in range(R):
                x = q[e] + b[s] + (rng.gauss(0, math.hypot(v[s] + .2, .7)) if kind == 'ideal' else rng.gauss(0, v[s]))
                if roles[s] == 'wild':
                    x = rng.choice([-40, 60]) if kind == 'extreme' else rng.choice([1.0, 5.0])
                elif kind in ('outlier', 'extreme') and not roles[s] == 'wild':
                    x = q[e] + rng.gauss(0, .25)
                elif roles[s] == 'inv':
                    x = 6 - x
                elif roles[s] == 'noise':
                    x = rng.uniform(1, 5)
                if kind == 'int5' or kind == 'constrow' or (kind == 'outlier' and rng.random() < .0):
                    x = float(min(5, max(1, round(x)))) if rng.random() < .5 else min(5, max(1, int(round(x))))
                elif kind == 'half':
                    x = round(x * 2) / 2.0
                elif kind == 'outlier' or kind == 'inverse' or kind == 'extreme':
                    x = round(x, 2)
                elif kind == 'neg':
                    x = (x - 3) * 2.25
                elif kind == 'off':
                    x = 1000 + 7 * x
                elif kind == 'pct':
                    x = round(x * 20, 1)
                elif kind == 'exact':
                    x = float(base + (5 if s == up else 0))
                elif kind == 'exact2':
                    x = float(base + (5 if s == up else 0)) if rng.random() < .9 else float(base - 5)
                elif kind == 'perfect':
                    x = q[e] + b[s] + (0 if s == 0 else rng.gauss(0, v[s]))
                if roles[s] == 'const':
                    x = consts[s]
                if crow:
                    x = cval
                cell.append(x)
            row.append(cell)
        out.append(row)
    return out


def make_dataset(rng, sh):
    """sh: scenario record with style, miss, reps, vals, size, cont, order, ref"""
    E = rint(rng, SIZES[sh['size']][0])
    S = rint(rng, SIZES[sh['size']][1])
    if sh['size'] == 'edge':
        E = rng.choice([20, 40])
    if sh['vals'] in ('exact', 'exact2') and S < 5:
        S = 5
    reps = sh['reps']
    R = {'one': 1, 'two': 2, 'ragged': rng.randint(2, 4)}[reps]
    x = gen_scores(rng, E, S, sh['vals'], R)
    # missing pattern: present[e][s] = number of votes kept
    pm = {'none': 0.0, 'few': .12, 'many': .4}[sh['miss']]
    keep = [[R for _ in range(S)] for _ in range(E)]
    for e in range(E):
        for s in range(S):
            if reps == 'ragged':
                keep[e][s] = rng.randint(1, R)
            if rng.random() < pm:
                keep[e][s] = 0
    minv = sh.get('minobs', 1)      # least number of videos per observer / votes per video
    for s in range(S):
        have = [e for e in range(E) if keep[e][s]]
        lack = [e for e in range(E) if not keep[e][s]]
        rng.shuffle(lack)
        while len(have) < min(minv, E) and lack:
            e = lack.pop()
            keep[e][s] = rng.randint(1, R)
            have.append(e)
    minw = sh.get('minvid', 1)
    for e in range(E):
        have = [s for s in range(S) if keep[e][s]]
        lack = [s for s in range(S) if not keep[e][s]]
        rng.shuffle(lack)
        while len(have) < min(minw, S) and lack:
            s = lack.pop()
            keep[e][s] = rng.randint(1, R)
            have.append(s)
    # contents
    cont = sh.get('cont', 'packed')
    nC = 1 if E < 3 else rng.randint(1, max(1, min(E // 2, 4)))
    if cont == 'gap':
        cids = sorted(rng.sample(rng.choice([range(nC + 3), range(nC + 3), range(7, 14), range(250, 900)]), nC))
    else:
        cids = list(range(nC))
    refmode = sh.get('ref', 'yes')          # yes: one hidden reference per content; no; dup; lack
    cs = [int(str(cids[i % nC])) for i in range(E)]         # equal, not identical, ids
    naming = sh.get('paths') or rng.choice(['plain', 'plain', 'dirs', 'near'])
    if naming == 'dirs':        # one file name, many directories
        paths = ['c%d/e%d/clip.yuv' % (cs[e], e) for e in range(E)]
        refp = {c: 'c%d/src/clip.yuv' % c for c in cids}
    elif naming == 'near':      # names that look like the reference's
        paths = [rng.choice(['v/ref%d.yuv.%d', 'v/Ref%d.yuv%d', 'w%d/ref%d.yuv', 'v/ref%d_%d.yuv', 'v//ref%d.yuv %d']) % (cs[e], e) for e in range(E)]
        refp = {c: 'v/ref%d.yuv' % c for c in cids}
    else:
        paths = ['v/c%d_%d.yuv' % (cs[e], e) for e in range(E)]
        refp = {c: 'v/ref%d.yuv' % c for c in cids}
    if refmode in ('yes', 'dup', 'lack', 'noscore'):
        for c in cids:
            vids = [e for e in range(E) if cs[e] == c]
            paths[rng.choice(vids)] = refp[c]
        if refmode == 'dup':
            c = rng.choice(cids)
            vids = [e for e in range(E) if cs[e] == c and paths[e] != refp[c]]
            if vids:
                paths[vids[0]] = refp[c]
            else:
                paths[[e for e in range(E) if cs[e] == c][0]] = 'v/none.yuv'
        if refmode == 'lack':
            c = rng.choice(cids)
            for e in range(E):
                if cs[e] == c and paths[e] == refp[c]:
                    paths[e] = 'v/lost.yuv'
    if sh.get('cross') and nC > 1 and rng.random() < .3:      # the reference of another content is not the reference of this one
        for c in cids:
            vids = [e for e in range(E) if cs[e] == c and paths[e] != refp[c]]
            if vids:
                paths[rng.choice(vids)] = refp[rng.choice([x for x in cids if x != c])]
    order = list(range(E))
    if sh.get('order', 'sorted') == 'shuffled':
        rng.shuffle(order)
    aid = sh.get('aid', 'seq')
    if aid == 'seq':
        aids = list(range(E))
    elif aid == 'perm':
        aids = list(range(E))
        rng.shuffle(aids)
    else:
        aids = rng.sample(range(3, 900), E)
    refs = [{'content_id': c, 'content_name': 'n%d' % c, 'path': refp[c]} for c in cids]
    if sh.get('order', 'sorted') == 'shuffled':
        rng.shuffle(refs)
    style = sh['style']
    if style == 'dict' and sh.get('keys', 'str') == 'int':
        names = rng.sample(range(1, 100), S)
    else:
        names = rng.sample(NAMES, S)
    ds = DS()
    ds.dataset_name = 'set_' + sh.get('name', 'a')
    ds.yuv_fmt = 'yuv420p'
    ds.width = 1920
    ds.height = 1080
    if refmode != 'noscore':
        ds.ref_score = sh.get('refscore', rng.choice([5.0, 5.0, 100, 4.5, 0, 4, 10.0, -2.5]))
    ds.ref_videos = refs
    dis = []
    for pos, e in enumerate(order):
        votes = []
        for s in range(S):
            c = x[e][s][:keep[e][s]]
            if reps == 'one':
                val = c[0] if c else float('nan')
            elif len(c) == 1 and rng.random() < .5:
                val = c[0]
            elif not c:
                val = float('nan') if rng.random() < .5 else [float('nan')]
            else:
                if reps == 'ragged' and len(c) < R and rng.random() < .3:
                    c = c[:-1] + [float('nan')] + c[-1:] if len(c) > 0 else c
                val = tuple(c) if rng.random() < .4 else list(c)
            votes.append(val)
        d = {'content_id': cs[e], 'asset_id': aids[pos], 'path': paths[e]}
        if style == 'list':
            d['os'] = votes
        elif style == 'tuple':
            d['os'] = tuple(votes)
        else:
            os_ = {}
            so = list(range(S))
            rng.shuffle(so)
            for s in so:
                absent = keep[e][s] == 0
                if absent and rng.random() < .85:
                    continue
                os_[names[s]] = votes[s]
            d['os'] = os_
        dis.append(d)
    if style == 'dict':        # every dict video must be able to tell its observers
        for d in dis:
            if not d['os']:
                d['os'][names[0]] = float('nan')
    ds.dis_videos = dis
    return ds


# ---------------------------------------------------------------- model calls

KW0 = {'d': False, 'z': False, 'b': False, 'rej': False, 'rejtype': '', 'norm': False, 'tf': False,
       'p2': [0], 'p1': [0], 'p0': [0], 'zm': True}


def kwargs_of(kw, rng=None):
    """scenario kw record -> (python kwargs, recorded kw)"""
    rec = dict(KW0)
    rec.update({k: v for k, v in kw.items() if k in KW0})
    out = {}
    if rec['d']:
        out['dscore_mode'] = True
    if rec['z']:
        out['zscore_mode'] = True
    if rec['b']:
        out['bias_offset'] = True
    if rec['rej']:
        out['subject_rejection'] = True
    if rec['rejtype']:
        out['subject_rejection_type'] = rec['rejtype']
    if rec['norm']:
        out['normalize_final'] = True
    if rec['tf']:
        t = {}
        for k, c in (('p2', [.5, -.25, 2]), ('p1', [25, -3, 1.5]), ('p0', [-10, .75, 4])):
            if rng.random() < .7 or k == 'p1':
                t[k] = rng.choice(c)
                rec[k] = num(t[k])
        if rng.random() < .15 and len(t) > 1:
            del t['p1']
            rec['p1'] = [0]
        out['transform_final'] = t
    if rec['zm'] is False:
        out['force_subjbias_zeromean'] = False
    return out, rec


RESKEYS = None


def enc_result(res, ranks, skip=()):
    if not isinstance(res, dict):
        return {'__nodict__': {'t': 'other', 'v': type(res).__name__}}
    out = {}
    for k, v in res.items():
        if k in skip:
            continue
        out[k] = tag(v, ranks if k == 'observers' else None)
    return out


def find_model(name):
    import sureal  # noqa: registers BT500, P913, P910
    import sureal.experimental  # noqa
    from sureal.subjective_model import SubjectiveModel
    return SubjectiveModel.find_subclass(name)


def run_model_event(ds, didx, model, kw, rng, extra_kwargs=None, reader=None):
    """construct reader+model, run, record"""
    from sureal.dataset_reader import RawDatasetReader
    kwargs, rec = kwargs_of(kw, rng)
    if extra_kwargs:
        kwargs.update(extra_kwargs)

    def go():
        rd = reader if reader is not None else RawDatasetReader(ds)
        return find_model(model)(rd).run_modeling(**kwargs)
    res, err, msg = call(go)
    ranks = obs_ranks(ds) if ds is not None else {}
    return {'op': 'model', 'd': didx, 'model': model, 'kw': rec, 'err': err, 'msg': msg,
            'res': enc_result(res, ranks) if not err else {'none': {'t': 'none'}}}


# ---------------------------------------------------------------- scenario sampling

def pick(rng, scens, n, skip=()):
    """pairwise-covering then random sample of scenario records"""
    scens = list(scens)
    if len(scens) <= n:
        return scens
    rng.shuffle(scens)
    covered = set()
    out = []

    def pairs(s):
        it = sorted((k, json.dumps(v, sort_keys=True)) for k, v in s.items() if k not in skip)
        return {(a, b) for i, a in enumerate(it) for b in it[i:]}
    pool = scens[:max(4 * n, 400)]
    pp = [pairs(s) for s in pool]
    left = set(range(len(pool)))
    while len(out) < n and left:
        best, gain = None, -1
        cand = rng.sample(sorted(left), min(len(left), 40))
        for i in cand:
            g = len(pp[i] - covered)
            if g > gain:
                best, gain = i, g
        out.append(pool[best])
        covered |= pp[best]
        left.discard(best)
    return out


# ---------------------------------------------------------------- full datasets (every field, as text)

def text(v):
    """printed value; equal dictionaries print equally"""
    if isinstance(v, dict):
        return '{' + ', '.join(sorted(text(k) + ': ' + text(x) for k, x in v.items())) + '}'
    if isinstance(v, (list, tuple)) and type(v) in (list, tuple):
        a, b = ('[', ']') if isinstance(v, list) else ('(', ',)')
        return a + ', '.join(text(x) for x in v) + b
    return repr(v)


def enc_full(ds):
    attrs = {k: text(v) for k, v in ds.__dict__.items() if not k.startswith('__') and k not in ('ref_videos', 'dis_videos') and type(v).__name__ != 'module'}
    dis = []
    for d in ds.dis_videos:
        dis.append({'fields': {k: text(v) for k, v in d.items() if k not in ('os', 'groundtruth', 'groundtruth_std')},
                    'hasos': 'os' in d, 'os': text(d['os']) if 'os' in d else '',
                    'cid': d['content_id'] if isinstance(d['content_id'], (int, np.integer)) else -99,
                    'aid': d['asset_id'] if isinstance(d['asset_id'], (int, np.integer)) else -99,
                    'gt': tag(d['groundtruth']) if 'groundtruth' in d else {'t': 'absent'},
                    'gtstd': tag(d['groundtruth_std']) if 'groundtruth_std' in d else {'t': 'absent'}})
    attrs.setdefault('dataset_name', '')
    return {'attrs': attrs, 'refs': [{k: text(v) for k, v in r.items()} for r in ds.ref_videos], 'dis': dis}


def digest(ds):
    import hashlib
    items = sorted((k, text(v)) for k, v in ds.__dict__.items() if not k.startswith('__'))
    return hashlib.sha1(repr(items).encode()).hexdigest()


EXTRA = [('license', 'CC-BY "4.0"\nline'), ('subjects', [{'name': 'a', 'age': 3}, {'name': "b'c", 'age': float('nan')}]),
         ('quality_width', 1280), ('quality_height', 720), ('resampling_type', 'lanczos'), ('fps', 23.976),
         ('notes', {'k': [1, (2, [3, {'deep': {'er': [None, 1e-300]}}])], 'u': u'\u00e9\\'}), ('_site', 'lab 3'), ('Observers', 7), ('undistorted_', True), ('dis_videos_extra', [1]), ('nothing', None)]


def decorate(rng, ds):
    """extra dataset attributes and video fields"""
    for k, v in EXTRA:
        if rng.random() < .4:
            setattr(ds, k, copy.deepcopy(v))
    for d in ds.dis_videos:
        if rng.random() < .4:
            d['bitrate'] = rng.choice([100, 2500.5, None, 'x'])
        if rng.random() < .2:
            d['fps'] = [24, 30]
        if rng.random() < .25:
            d['info'] = {'a': {'b': [{'c': [1, (2, [3, {'d': -0.5}])], 'e': 'long ' * 30}], 3: True}, 'z': "it's \"x\"\t"}
    return ds
