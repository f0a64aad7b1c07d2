"""Performance metrics (C19) and numeric helpers (C24)."""
import copy
import random

import numpy as np

from lib import pick, call, tag, num


def cases(pid, rng, scens, tier, budget):
    n = int(({'C19': 900, 'C24': 840}[pid] if tier == 'quick' else 4000) * budget)
    if pid == 'C24':
        return [{'sc': scens[i % len(scens)]} for i in range(max(n, len(scens)))]
    return [{'sc': s} for s in pick(rng, scens, n)]


def value(rng, kind):
    if kind == 'half':
        return rng.choice([1, 2, 3, 4, 5, 1.5, 2.5, 3.5, -2, 0])
    if kind == 'few':
        return float(rng.randint(1, 3))
    if kind == 'const':
        return 2.5
    if kind == 'big':
        return rng.uniform(-1e6, 1e6)
    if kind == 'pct':
        return round(rng.uniform(0, 100), 1)
    if kind == 'fine':
        return 3 + rng.randint(0, 40) / 65536.0
    if kind == 'third':
        return rng.randint(1, 5)
    return rng.gauss(3, 1)


def metric(c, rng):
    import sureal.perf_metric as M
    sc = c['sc']
    if c['i'] % 9 == 4:
        sc = dict(sc, len='other', n='some', aggr='', metric=rng.choice(['RMSE', 'RMSE', sc['metric']]))
    n = {'two': 2, 'some': rng.randint(3, 9), 'many': rng.randint(10, 30)}[sc['n']]
    if sc['len'] == 'other' and rng.random() < .5:      # lengths that would broadcast
        n = rng.choice([1, 2, 3, 5])
    exact = sc['vals'] in ('half', 'few', 'const', 'fine')
    gts, enc = [], []
    for i in range(n):
        lst = sc['gt'] == 'list' or (sc['gt'] == 'mixed' and rng.random() < .5)
        if lst:
            ln = rng.choice([1, 2, 4]) if exact else rng.choice([1, 2, 3, 5])
            v = [value(rng, sc['vals']) for _ in range(ln)]
            gts.append(v if rng.random() < .6 else (tuple(v) if rng.random() < .5 else np.array(v, dtype=float)))
            enc.append({'list': True, 'v': [num(a) for a in v]})
        else:
            v = value(rng, sc['vals'])
            gts.append(v)
            enc.append({'list': False, 'v': [num(v)]})
    m = n if sc['len'] == 'same' else rng.choice([max(1, n - 1), n + 1, 1, n + 2])
    if sc['len'] != 'same' and m == n:
        m = n + 1
    pk = sc['pred']
    preds = [value(rng, pk) for _ in range(m)]
    if sc['pred'] == 'cont' and rng.random() < .3 and m == n:
        preds = [(g if not hasattr(g, '__len__') else float(np.mean(g))) + rng.gauss(0, .5) for g in gts]
    if rng.random() < .4:
        preds_in = np.array(preds, dtype=float)
    else:
        preds_in = preds
    aggr = sc['aggr']
    kw = {} if aggr == '' else {'aggr_method': {'mean': np.mean, 'median': np.median, 'max': max, 'min': min, 'first': lambda x: x[0]}[aggr]}
    if sc['map']:
        kw['enable_mapping'] = True
        if rng.random() < .7 and m == n:      # predictions that follow the ground truth
            sd = {'pct': 15, 'fine': 1e-4}.get(sc['vals'], .6)
            preds = [float(np.mean(g)) + rng.gauss(0, sd) for g in gts]
            preds_in = list(preds)
    elif rng.random() < .3:
        kw['enable_mapping'] = False
    cls = {'RMSE': M.RmsePerfMetric, 'PCC': M.PccPerfMetric, 'SRCC': M.SrccPerfMetric, 'KENDALL': M.KendallPerfMetric}[sc['metric']]
    if rng.random() < .5:
        cls = M.PerfMetric.find_subclass(sc['metric'])
    g0, p0 = repr(gts), repr(preds_in)
    res, err, msg = call(lambda: cls(gts, preds_in).evaluate(**kw))
    sco = tag(res['score']) if not err else {'t': 'none'}
    return {'op': 'metric', 'metric': sc['metric'], 'gt': enc, 'pred': [num(a) for a in preds], 'aggr': aggr or 'mean', 'map': sc['map'], 'exact': exact, 'err': err, 'msg': msg,
            'score': sco, 'kept': repr(gts) == g0 and repr(preds_in) == p0}


def helper(c, rng):
    from sureal.tools import misc, stats
    fn = c['sc']['fn']
    ev = {'op': 'num', 'fn': fn}
    if fn == 'weighed_nanmean_2d':
        a = np.array([[rng.uniform(-5, 5) for _ in range(rng.randint(1, 7))]])
        d0, d1 = rng.randint(1, 7), rng.randint(1, 7)
        a = np.array([[rng.gauss(2, 3) if rng.random() > .25 else float('nan') for _ in range(d1)] for _ in range(d0)])
        axis = rng.choice([0, 1])
        w = np.array([rng.choice([0.0, 1.0, rng.uniform(.1, 9)]) if rng.random() < .3 else rng.uniform(.1, 9) for _ in range(d0 if axis == 0 else d1)])
        res, err, msg = call(lambda: misc.weighed_nanmean_2d(a, w, axis))
        ev.update(a=[[num(x) for x in r] for r in a.tolist()], w=[num(x) for x in w], axis=axis, res=tag(res))
    elif fn == 'histc':
        xs = [rng.choice([1, 2, 2.5, 3.0, float('nan'), -1, 0, 0.0]) for _ in range(rng.randint(0, 20))]
        res, err, msg = call(lambda: stats.histc(xs if rng.random() < .5 else np.array(xs, dtype=float)))
        ev.update(xs=[num(x) for x in xs], res=[[num(k), int(v)] for k, v in (res or {}).items()])
    elif fn in ('get_cdf', 'get_pdf'):
        kind = rng.choice(['grid', 'cont', 'const', 'half'])
        n = rng.randint(1, 40)
        if kind == 'grid':
            xs = [0.0, 16.0] + [float(rng.randint(0, 16)) for _ in range(n)]
            bins = rng.choice([1, 2, 4, 8, 16])
        elif kind == 'const':
            xs = [3.0] * n
            bins = rng.choice([2, 4])
        else:
            xs = [rng.gauss(0, 3) if kind == 'cont' else rng.randint(2, 10) / 2.0 for _ in range(n)]
            bins = rng.choice([1, 3, 7, 20])
        rng.shuffle(xs)
        kw = {'bins': bins}
        if rng.random() < .25 and kind in ('cont', 'half'):
            kw = {}
            bins = 100 if fn == 'get_cdf' else 20
        edges = []
        if rng.random() < .35:      # given bins, of any widths; some values may lie outside
            edges = sorted(rng.sample([0, .5, 1, 2, 2.5, 3, 4, 6, 9, 12, 16, -3, -8], rng.randint(2, 6)))
            xs.append((edges[0] + edges[1]) / 2.0)
            kw = {'bins': edges if rng.random() < .5 else np.array(edges, dtype=float)}
            kind = 'grid' if kind in ('grid', 'half', 'const') else kind
        density = True
        if fn == 'get_pdf' and rng.random() < .5:
            density = rng.random() < .4
            kw['density'] = density
        res, err, msg = call(lambda: getattr(stats, fn)(xs, **kw))
        r1, r2 = res if not err else (None, None)
        if r1 is not None:
            r1 = np.array(r1, dtype=float)
        ev.update(xs=[num(x) for x in xs], bins=bins, edges=[num(x) for x in edges], density=density, exact=kind in ('grid', 'const'), res=tag(r1), res2=tag(r2))
    elif fn in ('gaussian', 'logistic'):
        n = rng.randint(1, 12)
        rows = [[rng.gauss(0, 4), rng.gauss(0, 2), rng.choice([.05, .5, 1, 7.5, rng.uniform(.1, 3)])] for _ in range(n)]
        A = np.array(rows)
        f = stats.vectorized_gaussian if fn == 'gaussian' else stats.vectorized_logistic
        if n % 2 == 0 and rng.random() < .5:
            res, err, msg = call(lambda: np.ravel(f(A[:, 0].reshape(2, -1), A[:, 1].reshape(2, -1), A[:, 2].reshape(2, -1))))
        else:
            res, err, msg = call(lambda: f(A[:, 0], A[:, 1], A[:, 2]))
        ev.update(rows=[[num(x) for x in r] for r in rows], res=tag(res))
    elif fn == 'uniforms':
        rows = []
        for _ in range(rng.randint(1, 12)):
            s1, s2 = rng.choice([1, .5, 3, rng.uniform(.1, 4)]), rng.choice([1, .5, 3, rng.uniform(.1, 4)])
            l1, l2 = rng.choice([0, -2, 1.5]), rng.choice([0, 3, -.25])
            rows.append([l1 + l2 + rng.uniform(-.7, .7) * (s1 + s2), l1, s1, l2, s2])
        A = np.array(rows)
        if rng.random() < .5:
            res, err, msg = call(lambda: np.array([float(stats.convolution_of_two_uniforms(*r)) for r in rows]))
        else:
            res, err, msg = call(lambda: stats.vectorized_convolution_of_two_uniforms(*[A[:, i] for i in range(5)]))
            if not err:
                res = np.array(res, dtype=float)
        ev.update(rows=[[num(x) for x in r] for r in rows], res=tag(res))
    elif fn == 'logistics':
        rows = []
        for _ in range(2):
            s1, s2 = rng.choice([.5, 1, rng.uniform(.4, 1.2)]), rng.choice([.5, 1, rng.uniform(.4, 1.2)])
            rows.append([rng.gauss(0, 2), rng.choice([0, 1.5]), s1, rng.choice([0, -.7]), s2])
        A = np.array(rows)
        res, err, msg = call(lambda: np.ravel(stats.vectorized_convolution_of_two_logistics(*[A[:, i:i + 1] for i in range(5)])))
        ev.update(rows=[[num(x) for x in r] for r in rows], res=tag(res), tol=10)
    elif fn == 'convolve':
        s1, s2 = rng.uniform(.5, 2), rng.uniform(.5, 2)
        delta = rng.choice([1e-2, 5e-3])
        xs = [rng.gauss(0, 1.5) for _ in range(5)]
        g = lambda s: (lambda x: np.exp(-np.asarray(x) ** 2 / 2 / s ** 2) / s / np.sqrt(2 * np.pi))
        res, err, msg = call(lambda: np.array([float(stats.ConvolveTwoPdf(g(s1), g(s2), delta=delta).pdf(x)) for x in xs]))
        ev.update(rows=[[num(x), num(s1), num(s2)] for x in xs], res=tag(res), tol=30)
    elif fn == 'cmd':
        words = ['a', '--x', 'b', '--y', '3', '--x']
        argv = [rng.choice(words) for _ in range(rng.randint(1, 7))]
        b = rng.randint(0, len(argv))
        e = rng.randint(0, len(argv))
        opt = rng.choice(words + ['--no'])
        res, err, msg = call(lambda: (misc.cmd_option_exists(argv, b, e, opt), misc.get_cmd_option(argv, b, e, opt)))
        ex, val = res if not err else (False, None)
        ev.update(argv=argv, b=b, e=e, opt=opt, exists=ex is True, hasval=val is not None, val=str(val))
    elif fn == 'indices':
        xs = [rng.randint(0, 9) for _ in range(rng.randint(0, 9))]
        at = rng.randint(0, 9)
        res, err, msg = call(lambda: [int(i) + 1 for i in misc.indices(xs, lambda v: v > at)])
        ev.update(xs=[num(x) for x in xs], at=num(at), res=res or [])
    elif fn == 'unique':
        xs = [rng.choice([3, 1, 2.5, -4, 7]) for _ in range(rng.randint(0, 9))]
        res, err, msg = call(lambda: misc.get_unique_sorted_list(xs))
        ev.update(xs=[num(x) for x in xs], res=[num(x) for x in res or []])
    elif fn == 'process':
        import os
        import tempfile
        code = rng.choice([0, 0, 1, 3, 77, -9, -15])
        how = rng.choice(['list', 'shell'])
        mark = os.path.join(tempfile.mkdtemp(), 'm')
        cmd = 'echo x >> %s; %s' % (mark, 'exit %d' % code if code >= 0 else 'kill %d $$' % code)
        res, err, msg = call(lambda: misc.run_process(cmd, shell=True) if how == 'shell' else misc.run_process(['/bin/sh', '-c', cmd]))
        ran = len(open(mark).readlines()) if os.path.exists(mark) else 0
        ev.update(code=code, res=tag(res), ran=ran)
    elif fn == 'filename':
        dirs = [rng.choice(['abc', 'x.y', '.hid', 'a b', 'u_v']) for _ in range(rng.randint(0, 3))]
        ext = rng.choice(['', 'yuv', 'py', 'json', 'x'])
        stem = rng.choice(['src01', 'S-2', 'a']) + ('' if not ext else rng.choice(['', '', '.sdr', '.sdr.dvi', '..q']))
        path = rng.choice(['', '/', 'file:///']) + '/'.join(dirs + [stem + ('.' + ext if ext else '')])
        res, err, msg = call(lambda: [misc.get_file_name_with_extension(path), misc.get_file_name_without_extension(path), misc.get_file_name_extension(path)])
        ev.update(stem=stem, ext=ext, res=res or [])
    elif fn == 'inverse':
        inverse(rng, ev)
        err, msg = ev['err'], ev['msg']
    ev.update(err=err, msg=msg)
    return ev


def inverse(rng, ev):
    """the numerical inverse of a strictly monotonic function on a domain"""
    from sureal.tools.inverse import inversefunc
    fam = rng.choice(['lin', 'cub', 'exp'])
    a, b = rng.choice([-1, 1]) * rng.choice([.5, 1, 2, 3.25]), rng.choice([0, -1.5, 2])
    raw = {'lin': lambda x, a, b: a * x + b, 'cub': lambda x, a, b: a * (x ** 3 + x) + b, 'exp': lambda x, a, b: a * np.exp(x) + b}[fam]
    lo, hi = rng.choice([-2., 0., -.5]), rng.choice([.75, 1., 3.])
    dom = rng.choice(['none', 'low', 'low', 'both', 'both']) if fam != 'exp' else 'both'
    opened = [rng.random() < .3, rng.random() < .3]
    fault = rng.choice(['', '', '', '', '', 'domain3', 'reversed', 'image', 'image1', 'constant', 'open3'])
    kw = {}
    style = rng.choice(['args', 'args', 'closed'])
    f = raw
    if fault == 'constant':
        f = lambda x, a, b: b + 0 * x
    if style == 'args':
        kw['args'] = (a, b)
    else:
        g = f
        f = lambda x: g(x, a, b)
    if dom == 'low':
        kw['domain'] = lo if rng.random() < .5 else [lo, None]
    elif dom == 'both':
        kw['domain'] = rng.choice([list, tuple, np.array])([lo, hi])
    if dom != 'none' and rng.random() < .6:
        if rng.random() < .4:
            opened[1] = opened[0]
            kw['open_domain'] = opened[0]
        else:
            kw['open_domain'] = list(opened)
    else:
        opened = [False, False]
    if fault == 'domain3':
        kw['domain'] = rng.choice([[0, 1, 2], [[0, 1], [2, 3]]])
    elif fault == 'reversed':
        kw['domain'] = rng.choice([[1., 1.], [2., -1.]])
    elif fault == 'image':
        kw['image'] = rng.choice([[1., 1.], [2., -1.]])
    elif fault == 'image1':
        kw['image'] = rng.choice([[1.], [1., 2., 3.]])
    elif fault == 'open3':
        kw['open_domain'] = [True, False, True]
    xs = []
    for _ in range(rng.randint(1, 4)):
        inside = rng.uniform(lo + .01, hi - .01) if dom == 'both' else lo + .01 + abs(rng.gauss(0, 1.5)) if dom == 'low' else rng.gauss(0, 1.5)
        xs.append(inside)
    where = rng.choice(['in', 'in', 'in', 'out', 'edge'])
    ys = [float(raw(x, a, b)) for x in xs]
    k = rng.randrange(len(ys))
    if where == 'out' and dom != 'none':
        ys[k] = float(raw(lo, a, b)) - (1 if a > 0 else -1) * rng.choice([.1, 3.])
        if dom == 'both' and rng.random() < .5:
            ys[k] = float(raw(hi, a, b)) + (1 if a > 0 else -1) * rng.choice([.1, 3.])
    elif where == 'edge' and dom != 'none':
        ys[k] = float(raw(lo, a, b)) if dom == 'low' or rng.random() < .5 else float(raw(hi, a, b))
    yin = ys if len(ys) > 1 or rng.random() < .5 else ys[0]
    direct = rng.random() < .5
    res, err, msg = call(lambda: np.ravel(np.array(inversefunc(f, y_values=yin, **kw) if direct else inversefunc(f, **kw)(yin), float)))
    ev.update(fam=fam, a=num(a), b=num(b), dom=dom, lo=num(lo), hi=num(hi), openlo=opened[0], openhi=opened[1], fault=fault, ys=[num(y) for y in ys],
              res=tag(res), err=err, msg=msg)


def run_case(pid, c, rng, wd):
    return {'ev': [metric(c, rng) if pid == 'C19' else helper(c, rng)]}
