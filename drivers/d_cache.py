"""Caches under call histories with process restarts, crashes and failures (C23)."""
import gc
import json
import os
import random
import shutil
import signal
import sys

from lib import text


def cases(pid, rng, scens, tier, budget):
    rng.shuffle(scens)
    n = int((400 if tier == 'quick' else 2500) * budget)
    out = []
    for i in range(n):
        out.append({'sc': scens[i % len(scens)]})
    return out


class Planned(Exception):
    pass


class Boom(BaseException):
    pass


ARGS = [(1,), ('1',), (2,), (1, 2), ((1, 2),), ('1, 2',), ('a',), ("a'",), ('',), (), (None,), (1.5,), (-1,), ('b', 'a'), ('a', 'b'), ('ab',), (True, 0), (1e-9,),
        ('x' * 300,), ('x' * 299 + 'y',)]
# arguments that a careless key would mix up
ALIKE = [[(1,), ('1',), (11,), ((1,),)], [('a', 'b'), ('a,b',), ('ab',), ("a', 'b",), (('a', 'b'),), ('b', 'a')], [(1, 2), ((1, 2),), ('1, 2',), (12,), (2, 1)],
         [(-1,), (-2,), ('-1',)], [(None,), ('None',), (), ('',), ((),)], [(0.1,), (0.1 + 1e-12,), ('0.1',)], [('A',), ('a',), ('a ',), (' a',)],
         [('x' * 300,), ('x' * 299 + 'y',), ('y' + 'x' * 299,)], [(10 ** 20,), (10 ** 20 + 1,), (1e20,)], [('a/b',), ('a_b',), ('a b',), ('../a',)],
         [(1, None), (1,), (1, ''), (None, 1)]]
SAMEHASH = [[(-1,), (-2,)], [(0,), (2 ** 61 - 1,)], [('a', -1), ('a', -2)], [(5, None), (5 + 2 ** 61 - 1, None)]]
class Mute(object):
    """unhashable arguments that look alike"""
    __hash__ = None

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Mute) and o.v == self.v

    def __repr__(self):
        return 'Mute'


LISTS = [([1, 2],), ([1, 2], 3), ({'a': 1},)]
MUTES = [(Mute(1),), (Mute(2),), (Mute(3),)]


def values(rng):
    pool = [0, 1, -3.75, 'text', '', None, True, False, [], [1, 2, [3, None]], {'a': 1, 'b': [2.5, 'x']}, {}, 1e300, 0.1 + 0.2, 'u\u00e9"\n',
            [i * 1.25 for i in range(4000)], {'k%d' % i: [i, str(i)] for i in range(700)}]
    rng.shuffle(pool)
    if rng.random() < .5:       # values that count as nothing
        pool.sort(key=bool)
        pool = rng.sample(pool[:7], 7) + pool[7:]
    return pool


class World(object):
    """functions of one process over the shared cache location"""

    def __init__(self, kind, wd, keys, log):
        self.kind, self.wd, self.keys, self.log = kind, wd, keys, log
        self.failing = False
        self.now = -1
        from sureal.tools import decorator as D
        place = os.path.join(wd, 'cache')
        deco = {'dir': D.persist_to_dir(os.path.join(place, 'deep')), 'file': None, 'memo': D.memoized}[kind]
        world = self

        def make(name):
            def f(*args):
                return world.body(name, None, args)
            f.__name__ = name
            if kind == 'file':
                os.makedirs(place, exist_ok=True)
                return D.persist_to_file(os.path.join(place, name + '.json'))(f)
            return deco(f)

        self.fs = {}
        names = sorted({k['f'] for k in keys})
        if kind == 'memo' and any(k['o'] is not None for k in keys):
            class Thing(object):
                def __init__(self, tag):
                    self.tag = tag

                def __len__(self):
                    return 0

                @D.memoized
                def meth(self, *args):
                    return world.body('meth', self.tag, args)

                @D.memoized
                def other(self, *args):
                    return world.body('other', self.tag, args)
            self.Thing = Thing
            self.things = {}
        else:
            for nm in names:
                self.fs[nm] = make(nm)

    def body(self, name, o, args):
        for i, k in enumerate(self.keys):
            if k['f'] == name and k['o'] == o and k['args'] == args and [type(a) for a in k['args']] == [type(a) for a in args]:
                os.write(self.log, b'%d %d\n' % (self.now, i))
                if self.failing:
                    raise Planned()
                return json.loads(json.dumps(k['val']))
        raise AssertionError('unknown arguments %r' % (args,))

    def invoke(self, k):
        if k['o'] is not None:
            if k['o'] not in self.things:
                self.things[k['o']] = self.Thing(k['o'])
            return getattr(self.things[k['o']], k['f'])(*k['args'])
        return self.fs[k['f']](*k['args'])


def traced(fn, k, only, action):
    """run fn, acting at the k-th executed line (of decorator.py only, or of anything); -> lines counted"""
    cnt = [0]

    def tr(frame, event, arg):
        if event == 'line' and (not only or frame.f_code.co_filename.endswith('decorator.py')):
            cnt[0] += 1
            if cnt[0] == k:
                action()
        return tr
    sys.settrace(tr)
    try:
        fn()
    except BaseException:
        pass
    finally:
        sys.settrace(None)
    return cnt[0]


def lines(kind, keys, i, wd, only):
    """how many lines a cold call executes (measured in a process and place of its own)"""
    d = os.path.join(wd, 'dry')
    os.makedirs(d, exist_ok=True)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        n = 0
        try:
            wl = os.open(os.devnull, os.O_WRONLY)
            W = World(kind, d, keys, wl)
            n = traced(lambda: W.invoke(keys[i]), -1, only, None)
        finally:
            os.write(w, b'%d' % n)
            os._exit(0)
    os.waitpid(pid, 0)
    os.close(w)
    n = int(os.read(r, 50) or b'1')
    os.close(r)
    shutil.rmtree(d, ignore_errors=True)
    return max(1, n)


def run_case(pid, c, rng, wd):
    sc = c['sc']
    kind, hist = sc['kind'], sc['hist']
    if rng.random() < .6:       # calmer histories repeat their calls (dropping steps leaves a behaviour)
        quiet = [h for h in hist if h['act'] in ('call', 'fail', 'raise') or rng.random() < .3]
        few = rng.choice([1, 2, 2, 3])
        hist = [dict(h, k=1 + (h['k'] - 1) % few) if h['k'] else h for h in quiet] or hist
    nk = max([h['k'] for h in hist] + [1])
    vals = values(rng)
    names = rng.choice([['f', 'g'], ['f', 'f1'], ['f', 'F'], ['f', 'ff']]) if kind != 'file' or rng.random() < .5 else ['f']
    objs = kind == 'memo' and rng.random() < .6
    if kind == 'memo':
        pool = rng.sample([a for a in ARGS if a not in ((1,), (True, 0), (1.5,))], 4)
    else:
        pool = rng.sample(ARGS, 4)
    if rng.random() < .7:
        fam = [a for a in rng.choice(ALIKE + (SAMEHASH * 2 if kind == 'memo' else SAMEHASH)) if kind != 'memo' or a not in ((1e20,), (10 ** 20,))]
        pool = rng.sample(fam, min(3, len(fam))) + pool[:1]
        pool += [a for a in rng.sample(ARGS, 10) if a not in pool and (kind != 'memo' or a not in ((1,), (True, 0), (1.5,)))][:2]
    if kind == 'memo' and rng.random() < .4:
        pool[0] = rng.choice(LISTS)
    elif kind == 'memo' and rng.random() < .2:
        pool[:2] = rng.sample(MUTES, 2)
    keys = []
    close = rng.random() < .5       # the first keys differ in their arguments only
    while len(keys) < nk:
        k = dict({a: keys[0][a] for a in ('f', 'o')}, args=rng.choice(pool)) if close and 0 < len(keys) < min(3, len(pool)) else {'f': rng.choice(['meth', 'other'] if objs else names), 'o': rng.choice([1, 2]) if objs else None, 'args': rng.choice(pool)}
        if k not in [{a: x[a] for a in ('f', 'o', 'args')} for x in keys]:
            keys.append(k)
            k['val'] = vals[len(keys)]
    base = keys
    gens = 1 + sum(h['act'] in ('restart', 'crash') for h in hist) if objs else 1
    # objects live in one generation only; the same object made anew is another one
    keys = [dict(k, o=(k['o'], g) if objs else None, val=k['val'] if g == 0 else {'gen': g, 'v': k['val']}) for g in range(gens) for k in base]
    nocache = [kind == 'memo' and any(isinstance(a, (list, dict, Mute)) for a in k['args']) for k in keys]
    logp = os.path.join(wd, 'runs.log')
    open(logp, 'w').close()
    outp = os.path.join(wd, 'events.log')
    # plan: every history entry with its concrete interruption point
    plan, gen = [], 0
    for h in hist:
        p = dict(h)
        if h['k']:
            p['k'] = h['k'] + gen * nk
        if h['act'] in ('restart', 'crash') and objs:
            gen += 1
        if h['act'] == 'restart':
            p['stay'] = objs and rng.random() < .7
        if h['act'] in ('crash', 'raise'):
            only = rng.random() < .6
            p['only'] = only
            p['line'] = rng.randint(1, lines(kind, keys, p['k'] - 1, wd, only))
        plan.append(p)

    def emit(d):
        with open(outp, 'a') as f:
            f.write(json.dumps(d) + '\n')

    i = 0
    while i < len(plan):
        before = sum(1 for _ in open(outp)) if os.path.exists(outp) else 0
        child = os.fork()
        if child == 0:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(90)
            try:
                sys.stdout = open(os.devnull, 'w')
                log = os.open(logp, os.O_WRONLY | os.O_APPEND)
                W = None
                try:
                    W = World(kind, wd, keys, log)
                except BaseException as e:
                    emit({'i': i, 'err': type(e).__name__, 'ret': '', 'deco': True})
                    os._exit(3)
                j = i
                while j < len(plan):
                    p = plan[j]
                    if p['act'] == 'restart':
                        emit({'i': j, 'err': '', 'ret': ''})
                        if not p['stay']:
                            os._exit(0)
                        W.things.clear()
                        gc.collect()
                        j += 1
                        continue
                    if p['act'] == 'wipe':
                        shutil.rmtree(os.path.join(wd, 'cache'), ignore_errors=True)
                        emit({'i': j, 'err': '', 'ret': ''})
                        j += 1
                        continue
                    k = keys[p['k'] - 1]
                    W.now = j
                    if p['act'] == 'crash':
                        emit({'i': j, 'err': 'died', 'ret': ''})
                        traced(lambda: W.invoke(k), p['line'], p['only'], lambda: os._exit(9))
                        os._exit(9)
                    err, ret = '', ''
                    W.failing = p['act'] == 'fail'
                    try:
                        if p['act'] == 'raise':
                            box = []

                            def boom():
                                raise Boom()
                            traced(lambda: box.append(W.invoke(k)), p['line'], p['only'], boom)
                            if box:
                                ret = text(box[0])
                            else:
                                err = 'Boom'
                        else:
                            ret = text(W.invoke(k))
                    except BaseException as e:
                        err = type(e).__name__
                    W.failing = False
                    emit({'i': j, 'err': err, 'ret': ret})
                    j += 1
            finally:
                os._exit(0)
        _, st = os.waitpid(child, 0)
        recs = [json.loads(x) for x in open(outp)] if os.path.exists(outp) else []
        if recs and recs[-1].get('deco'):
            # the decorated functions cannot even be created: every remaining call fails
            last = recs[-1]
            with open(outp, 'w') as f:
                for r in recs[:-1]:
                    f.write(json.dumps(r) + '\n')
                while i < len(plan):
                    f.write(json.dumps({'i': i, 'err': last['err'] or 'exit', 'ret': ''}) + '\n')
                    i += 1
            break
        if len(recs) == before:     # died without an event
            with open(outp, 'a') as f:
                f.write(json.dumps({'i': i, 'err': 'exit', 'ret': ''}) + '\n')
            i += 1
        else:
            i = recs[-1]['i'] + 1
    return finish(kind, keys, nocache, plan, outp, logp)


def finish(kind, keys, nocache, plan, outp, logp):
    recs = {}
    for x in open(outp):
        r = json.loads(x)
        recs[r['i']] = r
    runs = {}
    for ln in open(logp):
        a, b = ln.split()
        runs[(int(a), int(b))] = runs.get((int(a), int(b)), 0) + 1
    evs = []
    for j, p in enumerate(plan):
        r = recs.get(j, {'err': 'lost', 'ret': ''})
        evs.append({'op': 'cache', 'act': p['act'], 'k': p['k'], 'err': r['err'], 'ret': r['ret'], 'ran': [runs.get((j, i), 0) for i in range(len(keys))], 'msg': '',
                    'nocache': nocache[p['k'] - 1] if p['k'] else False})
    return {'kind': kind, 'vals': [text(json.loads(json.dumps(k['val']))) for k in keys], 'ev': evs}
