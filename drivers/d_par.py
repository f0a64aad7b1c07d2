"""parallel_map under chosen completion orders (C22)."""
import json
import os
import select
import signal
import struct
import time

import numpy as np

PROCS = {'C22': 8}


def cases(pid, rng, scens, tier, budget):
    rng.shuffle(scens)
    seen, out = set(), []
    for s in scens:                       # one schedule per distinct history, all (n, limit) pairs first
        k = (s['n'], s['limit'])
        if k not in seen:
            seen.add(k)
            out.append(s)
    for s in scens:
        if s not in out:
            out.append(s)
    n = int((140 if tier == 'quick' else 1500) * budget)
    return [{'sc': s} for s in out[:n]]


class Unpicklable(object):
    def __init__(self, i):
        self.i = i
        self.f = lambda: i

    def __repr__(self):
        return 'U%d' % self.i


def value(kind, i):
    return [i * 10, {'k': [i, i + .5]}, 'text%d' % i * 2000, None if i % 2 else i, np.arange(3) + i, (i, 'x')][kind] if kind < 6 else -i


def run_case(pid, c, rng, wd):
    sc = c['sc']
    n, limit = sc['n'], sc['limit']
    usenone = limit == 6 and rng.random() < .5
    import multiprocessing
    lim = multiprocessing.cpu_count() if usenone else limit
    kinds = [rng.randrange(7) for _ in range(n)]
    order = list(range(n))
    dup = n > 1 and rng.random() < .3
    objs = [Unpicklable(k) for k in range(n)]
    dies = rng.randrange(n) if n and rng.random() < .15 else -1
    death = rng.choice(['exit', 'exit0', 'kill', 'raise'])
    pause = rng.choice([.01, .001, None])
    gates = [os.pipe() for _ in range(n)]
    er, ew = os.pipe()
    rr, rw = os.pipe()
    pid_ = os.fork()
    if pid_ == 0:                       # runs parallel_map
        try:
            signal.alarm(0)
            os.setpgid(0, 0)
            from sureal.tools.misc import parallel_map

            def func(o):
                os.write(ew, struct.pack('<cii', b's', o.i, os.getpid()))
                os.read(gates[o.i][0], 1)
                v = value(kinds[o.i], o.i)
                os.write(ew, struct.pack('<cii', b'f', o.i, os.getpid()))
                if o.i == dies:
                    if death == 'raise':
                        os.close(2)
                        raise ValueError('planned')
                    if death == 'kill':
                        os.kill(os.getpid(), signal.SIGKILL)
                    os._exit(0 if death == 'exit0' else 5)
                return v
            try:
                args = objs if rng.random() < .7 else tuple(objs)
                kw = {} if usenone else {'processes': limit}
                if rng.random() < .8 or pause is None:
                    kw['pause_sec'] = pause
                r = parallel_map(func, args, **kw)
                out = {'err': '', 'ret': [repr(x) for x in r], 'kind': type(r).__name__}
            except BaseException as e:
                out = {'err': type(e).__name__, 'ret': [], 'kind': ''}
            with os.fdopen(rw, 'w') as f:
                f.write(json.dumps(out) + '\n')
        finally:
            os._exit(0)
    os.close(ew)
    os.close(rw)
    events, active = [], []
    started, finished = 0, 0
    finishes = [i - 1 for k, i in sc['hist'] if k == 'finish']
    # the schedule as choices: which of the active workers (by rank of starting) ends next, and how many run then
    choices, act = [], []
    for k, i in sc['hist']:
        if k == 'start':
            act.append(i)
        else:
            choices.append((len(act), act.index(i)))
            act.remove(i)
    deadline = time.time() + 60
    buf = b''

    def pump(t):
        nonlocal buf, started, finished
        got = False
        while True:
            r, _, _ = select.select([er], [], [], 0 if got else t)
            if not r:
                return got
            d = os.read(er, 4096)
            if not d:
                return got
            got = True
            buf += d
            while len(buf) >= 9:
                k, i, p = struct.unpack('<cii', buf[:9])
                buf = buf[9:]
                if k == b's':
                    events.append({'k': 'start', 'i': i + 1})
                    active.append(i)
                    started += 1
                else:
                    events.append({'k': 'finish', 'i': i + 1})
                    if i in active:
                        active.remove(i)
                    finished += 1
    opened = set()
    for want, pick in choices:
        t_end = time.time() + 1.5
        goal = min(want, lim)
        while len(active) < goal and time.time() < min(t_end, deadline):
            pump(.02)
        if len(active) >= min(lim, n - finished):    # full: nothing more may start
            pump(.03)
        cand = [i for i in active if i not in opened]
        if not cand:
            continue
        i = cand[min(pick, len(cand) - 1)]
        opened.add(i)
        os.write(gates[i][1], b'x')
        t_end = time.time() + 2
        while i in active and time.time() < t_end:
            pump(.02)
    # anything left (code that starts fewer or other workers): let it go
    for i in range(n):
        if i not in opened:
            os.write(gates[i][1], b'x')
    outcome, ret = 'timeout', []
    data = b''
    while time.time() < deadline:
        pump(0)
        r, _, _ = select.select([rr], [], [], .02)
        if r:
            d = os.read(rr, 65536)
            if not d:
                break
            data += d
            if data.endswith(b'\n'):
                break
    if data:
        try:
            o = json.loads(data.decode())
            outcome, ret = o['err'], o['ret']
        except ValueError:
            outcome = 'garbled'
    pump(0)
    try:
        os.killpg(pid_, signal.SIGKILL)
    except OSError:
        pass
    os.waitpid(pid_, 0)
    for a, b in gates:
        os.close(a)
        os.close(b)
    os.close(er)
    os.close(rr)
    return {'ev': [{'op': 'pmap', 'n': n, 'limit': lim, 'dies': dies + 1, 'evs': events, 'outcome': outcome, 'ret': ret,
                    'want': [repr(value(kinds[i], i)) for i in range(n)], 'err': outcome, 'msg': ''}]}
