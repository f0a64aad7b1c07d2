"""What the plots draw (C28)."""
import os
import re

import numpy as np

from lib import pick, make_dataset, enc_dataset, call, num, find_model, enc_result, obs_ranks, isnum
from d_report import write
from d_pc import make_pc, enc_pc

QUALITY = ['MOS', 'DMOS', 'ZS_MOS', 'SR_MOS', 'BR_MOS', 'BR_SR_MOS', 'P913', 'BT500', 'LIVE_DMOS', 'SR_MOS_PCC']
SOLVED = ['P910', 'MLE_CO_AP', 'MLE_CO', 'MLE', 'MLE_SO', 'Subject_MLE_Projection']


def cases(pid, rng, scens, tier, budget):
    k = (1 if tier == 'quick' else 6) * budget
    out = []
    for kind, n in (('raw', 40), ('quality', 60), ('subject', 50), ('content', 20), ('all', 14), ('winning', 24), ('synthetic', 40), ('scatter', 20)):
        some = pick(rng, [s for s in scens if s['kind'] == kind], int(n * k))
        out += [some[i % len(some)] for i in range(int(n * k))]
    return [{'sc': s} for s in out]


# ------------------------------------------------------------------ what an axes shows

def text(s):
    """label -> the name before the first bracket, and the figures in brackets"""
    figs = {}
    for key, v in re.findall(r'[\[(,]\s*(NBIC|avg CI|RMSE|CI%)\s+([-+\w.]+)', s):
        figs[key] = v
    return re.split(r' [\[(]', s)[0], figs


def shown(v):
    """a printed figure: its value and half a unit of its last digit"""
    if v in ('nan', 'inf', '-inf'):
        return {'v': num(float(v)), 'half': num(0.0)}
    d = len(v.split('.')[1]) if '.' in v else 0
    return {'v': num(float(v)), 'half': num(.5 * 10.0 ** -d)}


def series(ax):
    """the labelled data drawn in an axes, in drawing order"""
    import matplotlib
    from matplotlib.container import ErrorbarContainer, BarContainer
    out, inside = [], set()
    arts = []
    for c in ax.containers:
        if isinstance(c, ErrorbarContainer):
            line, _, cols = c.lines
            inside.add(id(line))
            y = np.asarray(line.get_ydata(), dtype=float)
            s = {'x': np.asarray(line.get_xdata(), dtype=float), 'y': y, 'kind': 'points'}
            if cols:
                seg = np.array([np.asarray(g, dtype=float) if len(g) == 2 else np.full((2, 2), np.nan) for g in cols[0].get_segments()])
                if len(seg) == len(y):
                    s['lo'], s['hi'] = y - seg[:, 0, 1], seg[:, 1, 1] - y
                else:
                    s['lo'] = s['hi'] = np.full(len(y), 1e9)
            arts.append((c, s))
        elif isinstance(c, BarContainer):
            arts.append((c, {'x': np.array([p.get_x() + p.get_width() / 2 for p in c.patches]), 'y': np.array([p.get_height() for p in c.patches]), 'kind': 'bars'}))
    for ln in ax.lines:
        if id(ln) not in inside and not str(ln.get_label()).startswith('_'):
            arts.append((ln, {'x': np.asarray(ln.get_xdata(), dtype=float), 'y': np.asarray(ln.get_ydata(), dtype=float), 'kind': 'points'}))
    for col in ax.collections:
        if isinstance(col, matplotlib.collections.PathCollection) and not str(col.get_label()).startswith('_'):
            o = np.ma.filled(np.ma.asarray(col.get_offsets(), dtype=float), np.nan).reshape(-1, 2)
            arts.append((col, {'x': o[:, 0], 'y': o[:, 1], 'kind': 'points'}))
    at = {id(k): i for i, k in enumerate(ax.get_children())}

    def drawn_at(a):
        first = a.lines[0] if isinstance(a, ErrorbarContainer) else a.patches[0] if isinstance(a, BarContainer) and a.patches else a
        return at.get(id(first), 10 ** 9)
    arts.sort(key=lambda p: drawn_at(p[0]))
    for a, s in arts:
        name, figs = text(str(a.get_label()))
        r = {'name': name, 'kind': s['kind'], 'x': [num(v) for v in s['x']], 'y': [num(v) for v in s['y']], 'haserr': 'lo' in s,
             'lo': [num(v) for v in s.get('lo', [])], 'hi': [num(v) for v in s.get('hi', [])], 'figs': {k: shown(v) for k, v in figs.items()}}
        r['figs']['none'] = shown('0')
        out.append(r)
    return out


def image(ax):
    if not ax.images:
        return {'n': 0, 'v': []}
    a = np.ma.filled(np.ma.asarray(ax.images[-1].get_array(), dtype=float), np.nan)
    return {'n': len(ax.images), 'v': [[num(x) for x in r] for r in a.tolist()]}


def scatter(ax):
    """unlabelled scatter: points with their sizes"""
    out = []
    for col in ax.collections:
        o = np.ma.filled(np.ma.asarray(col.get_offsets(), dtype=float), np.nan).reshape(-1, 2)
        z = np.asarray(col.get_sizes(), dtype=float)
        z = np.resize(z, len(o)) if len(z) else np.full(len(o), np.nan)
        out += [[num(a), num(b), num(c)] for (a, b), c in zip(o, z)]
    return out


def ticks(ax):
    xs = [float(v) for v in ax.get_xticks()]
    return {'x': [num(v) for v in xs], 't': [t.get_text() for t in ax.get_xticklabels()]}


TITLES = [('ax_quality_scores', 'Recovered Quality Score', ''), ('ax_observer_bias', 'Subject Bias', ''), ('ax_observer_inconsistency', 'Subject Inconsistency', ''),
          ('ax_content_ambiguity', 'Content Ambiguity', ''), ('ax_raw_scores', 'Raw Opinion Scores', 'Video Stimuli'), ('ax_raw_counts', r'Raw Opinion Scores ($u_{ij}$) Counts', 'Video Stimuli'),
          ('raw_counts_per_subject', r'Raw Opinion Scores ($u_{ij}$) Counts', 'Test Subjects')]

# ------------------------------------------------------------------ cases

def models_of(rng, sc, need=()):
    n = {'one': 1, 'two': 2, 'three': 3, 'nine': 9}[sc['n']]
    pool = QUALITY + SOLVED if n < 9 else QUALITY
    if n < 9 and sc['reps'] == 'one' and sc['miss'] == 'none':
        pool = pool + ['LS', 'LS', 'MLE_legacy']        # figures without intervals
    ms = list(dict.fromkeys(rng.sample(pool, min(n, len(pool)))))
    if need and not set(ms) & set(need):
        ms[rng.randrange(len(ms))] = rng.choice(list(need))
    return ms


def shape(rng, sc):
    return {'style': sc['style'], 'miss': sc['miss'], 'reps': sc['reps'], 'vals': rng.choice(['half', 'cont', 'outlier', 'neg']), 'size': rng.choice(['small', 'small', 'mid', 'mid', 'tall', 'crowd']), 'cont': 'packed',
            'order': 'shuffled', 'aid': 'any', 'ref': 'yes', 'minobs': 4, 'minvid': 3, 'keys': rng.choice(['str', 'int'])}


def drawn(c, sc, rng, wd):
    from matplotlib import pyplot as plt
    from sureal.routine import run_subjective_models
    kind = sc['kind']
    need = {'subject': ['BR_MOS', 'BR_SR_MOS', 'P913', 'P910', 'MLE', 'MLE_CO_AP'], 'content': ['MLE', 'MLE_SO'], 'all': ['MLE']}.get(kind, ())
    models = models_of(rng, sc, need)
    ds = make_dataset(rng, shape(rng, sc))
    for i, r in enumerate(ds.ref_videos):
        r['content_name'] = rng.choice(['zebra', 'apple', 'Cat', 'b 7', 'm']) + '_%d' % rng.randrange(100)
    p = os.path.join(wd, 'set.py')
    write(ds, p)
    todo = {'raw': ['raw_scores', 'raw_counts', 'raw_counts_per_subject', 'raw_scores_minus_quality_scores', 'raw_scores_minus_quality_scores_and_observer_bias', 'quality_scores_vs_raw_scores'],
            'quality': ['quality_scores'], 'subject': ['subject_scores'], 'content': ['content_scores']}.get(kind)
    if kind == 'raw':
        todo = rng.sample(todo, rng.randint(1, len(todo)))
    kw = {'do_plot': 'all' if kind == 'all' else todo}
    if kind == 'all':
        todo = ['quality_scores', 'subject_scores', 'content_scores', 'raw_scores', 'raw_counts', 'raw_counts_per_subject']
    if sc['type'] != 'default':
        kw['plot_type'] = sc['type']
    if sc['sort'] != 'default':
        kw['sort_quality_scores_in_plot'] = sc['sort'] == 'yes'
    if call(lambda: run_subjective_models(dataset_filepath=p, subjective_model_classes=[find_model(m) for m in models]))[1]:
        return None         # a model that does not accept these votes
    axes = {}
    for k in ('ax_quality_scores', 'ax_observer_bias', 'ax_observer_inconsistency', 'ax_rejected', 'ax_rejected_1st_stats', 'ax_rejected_2nd_stats', 'ax_content_ambiguity',
              'ax_raw_scores', 'ax_raw_counts', 'raw_counts_per_subject'):
        axes[k] = plt.figure().add_subplot(111)
    if kind == 'raw' and len(models) == 1:
        for k in ('ax_raw_scores_minus_quality_scores', 'ax_raw_scores_minus_quality_scores_and_observer_bias'):
            axes[k] = plt.figure().add_subplot(111)
    own = set(plt.get_fignums())
    given = rng.random() < .7
    if given:
        kw['ax_dict'] = dict(axes)
    rs, err, msg = call(lambda: run_subjective_models(dataset_filepath=p, subjective_model_classes=[find_model(m) for m in models], **kw)[2])
    ev = {'op': 'plot', 'd': 1, 'models': models, 'err': err, 'msg': msg, 'sort': sc['sort'] == 'yes', 'bars': sc['type'] == 'bar', 'draws': [], 'list': sc['style'] != 'dict',
          'results': [enc_result({k: v for k, v in r.items() if k not in ('raw_scores', 'reconstructions', 'dis_video_names', 'observers')}, {}, skip=('reconstruction_stats',)) for r in rs or []],
          'recon': ['reconstructions' in r for r in rs or []], 'names': [[str(o) for o in r['observers']] if 'observers' in r else [] for r in rs or []],
          'contents': [r['content_name'] for r in sorted(ds.ref_videos, key=lambda r: r['content_id'])]}
    if not err:
        add = ev['draws'].append
        new = [plt.figure(k) for k in plt.get_fignums() if k not in own]
        if not given:       # figures of the routine's own, told by their titles
            for f in new:
                for ax in f.axes:
                    for k, t, xl in TITLES:
                        if ax.get_title().startswith(t) and xl in ax.get_xlabel() and (k != 'ax_raw_scores' or 'Counts' not in ax.get_title()):
                            axes[k] = ax
                            if k == 'ax_observer_bias' and len(f.axes) > 1:
                                axes['ax_observer_inconsistency'] = f.axes[1]        # below, without a title when there is nothing to show
        elif kind == 'raw' and len(models) == 1:
            new += [axes[k].figure for k in axes if 'minus' in k and axes[k].get_title()]
        if 'raw_scores' in todo:
            add({'what': 'raw_scores', 'image': image(axes['ax_raw_scores'])})
        if 'raw_counts' in todo:
            add({'what': 'raw_counts', 'scatter': scatter(axes['ax_raw_counts'])})
        if 'raw_counts_per_subject' in todo:
            add({'what': 'raw_counts_per_subject', 'scatter': scatter(axes['raw_counts_per_subject'])})
        if 'quality_scores' in todo:
            add({'what': 'quality_scores', 'series': series(axes['ax_quality_scores'])})
        if 'subject_scores' in todo:
            for k in ('observer_bias', 'observer_inconsistency', 'observer_rejected', 'observer_rejected_1st_stats', 'observer_rejected_2nd_stats')[:5 if given else 2]:
                add({'what': k, 'series': series(axes['ax_' + (k if k[9:12] != 'rej' else k[9:])])})
            add({'what': 'observer_names', 'ticks': ticks(axes['ax_observer_inconsistency'])})
        if 'content_scores' in todo:
            add({'what': 'content_ambiguity', 'series': series(axes['ax_content_ambiguity'])})
            add({'what': 'content_names', 'ticks': ticks(axes['ax_content_ambiguity'])})
        if kind == 'raw':
            # the other plots make figures of their own, told apart by their titles
            for f in new:
                ax = f.axes[0]
                t = ax.get_title()
                name = t.split(', ')[-1]
                if t.startswith(r'$u_{ij} - \psi_j$'):
                    add({'what': 'residual', 'bias': False, 'model': name, 'image': image(ax)})
                elif t.startswith(r'$u_{ij} - \psi_j - \Delta_i$'):
                    add({'what': 'residual', 'bias': True, 'model': name, 'image': image(ax)})
                elif t == '#1':
                    boxes = [a for a in f.axes if re.match(r'#\d+$', a.get_title())]
                    add({'what': 'versus', 'model': (series(ax) or [{'name': '?'}])[0]['name'],
                         'boxes': [{'title': b.get_title(), 'series': series(b)} for b in boxes]})
            add({'what': 'kinds', 'residual': 'raw_scores_minus_quality_scores' in todo, 'residual2': 'raw_scores_minus_quality_scores_and_observer_bias' in todo,
                 'versus': 'quality_scores_vs_raw_scores' in todo})
    plt.close('all')
    evs = [ev]
    if kind in ('quality', 'subject', 'content') and c['i'] % 3 == 0:
        bad = dict(kw, plot_type=rng.choice(['pie', '', 'Bar', 'errorbars']), ax_dict={})
        _, err, msg = call(lambda: run_subjective_models(dataset_filepath=p, subjective_model_classes=[find_model(m) for m in models], **bad)[2])
        plt.close('all')
        evs.append({'op': 'badplot', 'd': 1, 'err': err, 'msg': msg, 'drawn': any({'quality': 'quality_scores', 'subject': 'observer_bias', 'content': 'content_ambiguity'}[kind] in r for r in rs or [])})
    return {'ds': [enc_dataset(ds)], 'ev': evs}


def winning(c, sc, rng, wd):
    from matplotlib import pyplot as plt
    from sureal.routine import visualize_pc_dataset
    ds = make_pc(rng, rng.randint(2, 6), rng.randint(1, 5), rng.choice(['full', 'half', 'sparse']), rng.choice(['none', 'some']), rng.choice(['seq', 'perm']), rng.random() < .3)
    p = os.path.join(wd, 'pc.py')
    write(ds, p)

    def go():
        visualize_pc_dataset(p)
        return image(plt.gcf().axes[0])
    im, err, msg = call(go)
    plt.close('all')
    return {'ds': [enc_pc(ds)], 'ev': [{'op': 'winning', 'd': 1, 'err': err, 'msg': msg, 'image': im or {'n': 0, 'v': []}}]}


def synthetic(c, sc, rng, wd):
    from matplotlib import pyplot as plt
    from sureal.routine import validate_with_synthetic_dataset
    from sureal.dataset_reader import SyntheticRawDatasetReader
    ds = make_dataset(rng, {'style': sc['style'], 'miss': 'few', 'reps': 'one', 'vals': 'half', 'size': rng.choice(['small', 'mid']), 'cont': 'packed', 'order': 'shuffled',
                            'aid': 'seq', 'ref': 'yes', 'minobs': 2, 'keys': 'str'})
    E, C, S = len(ds.dis_videos), len(ds.ref_videos), rng.choice([5, 9])
    p = os.path.join(wd, 'base.py')
    write(ds, p)
    syn = {'quality_scores': np.array([rng.uniform(1, 5) for _ in range(E)]), 'observer_bias': np.array([rng.gauss(0, .5) for _ in range(S)]),
           'observer_inconsistency': np.array([rng.uniform(.3, .9) for _ in range(S)]), 'content_bias': np.zeros(C),
           'content_ambiguity': np.array([rng.uniform(0, .4) for _ in range(C)]), 'quality_scores_std': np.array([rng.uniform(.1, .4) for _ in range(E)]),
           'quality_ambiguity': np.array([rng.uniform(.1, .9) for _ in range(E)]), 'seed': rng.randrange(2 ** 31)}
    models = rng.sample(['MOS', 'P910', 'MLE_CO_AP', 'BR_MOS', 'MLE_CO', 'MLE', 'P913', 'LS', 'MLE_legacy'], rng.randint(1, 3))
    keys = ['quality_scores', 'observer_bias', 'observer_inconsistency', 'quality_scores_std', 'quality_ambiguity']
    keys = rng.sample(keys, rng.randint(1, 5))
    axes = {k: plt.figure().add_subplot(111) for k in keys}
    more = {} if sc['err'] == 'default' else {'do_errorbar': sc['err'] == 'yes'}
    ret, err, msg = call(lambda: validate_with_synthetic_dataset(SyntheticRawDatasetReader, [find_model(m) for m in models], p, syn, dict(axes), **more))
    ev = {'op': 'recovered', 'models': models, 'err': err, 'msg': msg, 'bars': sc['err'] == 'yes', 'syn': {k: [num(v) for v in syn[k]] for k in keys},
          'results': {m: enc_result({k: v for k, v in ret['results'][m].items() if k in ('quality_scores', 'observer_bias', 'observer_inconsistency', 'quality_scores_std', 'quality_ambiguity', 'quality_scores_ci95',
                                                                                          'observer_bias_ci95', 'observer_inconsistency_ci95')}, {}) for m in models} if not err else {'none': {'none': {'t': 'none'}}},
          'draws': {k: series(axes[k]) for k in keys}}
    plt.close('all')
    return {'ds': [], 'ev': [ev]}


def tagged(m, fr):
    return m if fr is None else '%s %d%% data' % (m, round(fr * 100))


def scattered(c, sc, rng, wd):
    from matplotlib import pyplot as plt
    from sureal.routine import plot_scatter_target_vs_compared_models, get_sample_stats
    n = {'one': 1, 'two': 2, 'three': 3}.get(sc['n'], 2)
    pool = ['MOS', 'P910', 'BR_MOS', 'SR_MOS', 'P913', 'ZS_MOS', 'MLE_CO_AP']
    targets, compared = [rng.choice(pool) for _ in range(n)], [rng.choice(pool) for _ in range(n)]
    dss, args = [], []
    for i in range(rng.choice([1, 2])):
        ds = make_dataset(rng, dict(shape(rng, sc), size='mid', minobs=8, keys='str', vals='cont'))
        write(ds, os.path.join(wd, 'set%d.py' % i))
        dss.append(ds)
        args.append({'path': os.path.join(wd, 'set%d.py' % i), 'name': 'x'})
    tf, cf = rng.choice([(None, None), (None, .5), (.75, .5), (1.0, None)])
    seed = rng.randrange(2 ** 31)

    def go():
        plot_scatter_target_vs_compared_models(targets, compared, args, target_subj_fraction=tf, compared_subj_fraction=cf, random_seed=seed)
        return [plt.figure(k) for k in plt.get_fignums()]
    # a subsampled video nobody voted on has no quality, and no correlation to show: not a plot to judge
    qs = []
    for a in args:
        for k in range(n):
            try:
                qs.append([get_sample_stats([a], [find_model(m)], subj_fraction=fr, random_seed=seed)[0][0]['quality_scores']
                           for m, fr in ((targets[k], tf), (compared[k], cf))])
            except (ValueError, AssertionError):
                return None
    if any(not np.all(np.isfinite(np.asarray(v, float))) for q in qs for v in q):
        return None
    figs, err, msg = call(go)
    evs = [{'op': 'versus', 'err': err, 'msg': msg, 'nfig': len(figs or []), 'nset': len(args), 'pairs': []}]
    if not err and len(figs) == len(args):
        for i, (a, f) in enumerate(zip(args, figs)):
            axs = f.axes                # rows: scatters, then histograms
            for k in range(n):
                q = [[num(v) for v in w] for w in qs[i * n + k]]
                sc_, hi = axs[k], axs[n + k]
                t = hi.get_title()
                figures = re.findall(r'(plcc|srocc|mean|std) ([-+\w.]+)', t)
                evs[0]['pairs'].append({'target': q[0], 'compared': q[1], 'series': [{k_: v for k_, v in s.items()} for s in series(sc_)], 'xl': sc_.get_xlabel(), 'yl': sc_.get_ylabel(), 'tt': tagged(targets[k], tf), 'ct': tagged(compared[k], cf),
                                        't': targets[k], 'c': compared[k], 'label': os.path.splitext(os.path.basename(a['path']))[0][:30],
                                        'count': int(round(sum(p.get_height() for p in hi.patches))), 'figs': {k_: shown(v) for k_, v in figures} or {'none': shown('0')}})
    plt.close('all')
    return {'ds': [], 'ev': evs}


def run_case(pid, c, rng, wd):
    import matplotlib
    matplotlib.use('Agg')
    sc = c['sc']
    return {'winning': winning, 'synthetic': synthetic, 'scatter': scattered}.get(sc['kind'], drawn)(c, sc, rng, wd)
