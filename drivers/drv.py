"""Runs the cases of one property against the real code and records traces (JSON lines)."""
import argparse
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib  # noqa

MODULES = {'C01': 'd_models', 'C02': 'd_refuse', 'C03': 'd_models', 'C04': 'd_models', 'C05': 'd_models', 'C06': 'd_models',
           'C07': 'd_models', 'C08': 'd_models', 'C09': 'd_models', 'C10': 'd_models', 'C11': 'd_meta', 'C12': 'd_session',
           'C13': 'd_export', 'C14': 'd_pc', 'C15': 'd_pc', 'C16': 'd_pc', 'C17': 'd_combine', 'C18': 'd_sim', 'C19': 'd_num',
           'C20': 'd_report', 'C21': 'd_models', 'C22': 'd_par', 'C23': 'd_cache', 'C24': 'd_num', 'C25': 'd_boot',
           'C26': 'd_demo', 'C27': 'd_sub', 'C28': 'd_plot'}


CASE_SECONDS = {'quick': 300, 'thorough': 1200}


class Hang(BaseException):
    pass


def _hang(*_):
    raise Hang()


def crash_of(e, repo):
    """the event for a case which the code under test did not survive; None if the code is not involved"""
    root = os.path.realpath(repo) + os.sep
    fr = [f for f in traceback.extract_tb(e.__traceback__) if os.path.realpath(f.filename).startswith(root)]
    if not fr:
        return None
    at = '%s:%s' % (os.path.relpath(os.path.realpath(fr[-1].filename), root), fr[-1].name)
    what = 'no_end' if isinstance(e, Hang) else 'raised'
    return {'op': 'crash', 'what': what, 'err': type(e).__name__, 'msg': str(e)[:300], 'at': at}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    for k in ('--scen', '--tier', '--out', '--work', '--cases'):
        ap.add_argument(k)
    ap.add_argument('--seed', type=int)
    ap.add_argument('--procs', type=int)
    ap.add_argument('--budget', type=float, default=1.0)
    a = ap.parse_args()
    repo = os.environ['SUREAL_REPO']
    if os.environ.get('VERIF_COV'):     # development: which lines the cases execute
        sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools'))
        import covrec
        covrec.start(os.environ['VERIF_COV'], repo)
    import sureal
    assert os.path.realpath(sureal.__file__).startswith(os.path.realpath(repo)), sureal.__file__
    mod = importlib.import_module(MODULES[a.id])
    rng = random.Random('%s-%d' % (a.id, a.seed))
    scens = [json.loads(x) for x in open(a.scen)] if os.path.getsize(a.scen) else []
    if a.cases:
        cases = json.load(open(a.cases))
    else:
        cases = mod.cases(a.id, rng, scens, a.tier, a.budget)
        for i, c in enumerate(cases):
            c['seed'] = '%s-%d-%d' % (a.id, a.seed, i)
            c['i'] = i
    pids = []
    nproc = max(1, min(a.procs, len(cases)))
    nproc = getattr(mod, 'PROCS', {}).get(a.id, nproc)
    for k in range(nproc):
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                with open('%s.%d' % (a.out, k), 'w') as f:
                    for c in cases[k::nproc]:
                        wd = os.path.join(a.work, 'case%d' % c['i'])
                        os.makedirs(wd, exist_ok=True)
                        hung = False
                        signal.signal(signal.SIGALRM, _hang)
                        signal.alarm(CASE_SECONDS.get(a.tier, 300))
                        try:
                            tr = mod.run_case(a.id, c, random.Random(c['seed']), wd)
                            signal.alarm(0)
                        except (Exception, Hang) as e:
                            signal.alarm(0)
                            hung = isinstance(e, Hang)
                            ev = crash_of(e, repo)
                            if ev is None:
                                raise
                            traceback.print_exc()
                            tr = {'ev': [ev]}
                        if tr is None:
                            continue
                        tr['case'] = c
                        tr.setdefault('ds', [])
                        f.write(json.dumps(tr) + '\n')
                        f.flush()
                        if hung:
                            break
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids.append(pid)
    ok = True
    for p in pids:
        _, st = os.waitpid(p, 0)
        ok = ok and st == 0
    if not ok:
        sys.exit(3)
    with open(a.out, 'w') as out:
        rows = []
        for k in range(nproc):
            rows += [ln for ln in open('%s.%d' % (a.out, k))]
        rows.sort(key=lambda s: json.loads(s)['case']['i'])
        out.writelines(rows)


if __name__ == '__main__':
    main()
