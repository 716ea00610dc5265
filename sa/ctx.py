"""Obligations, their parallel evaluation, the report and the evidence file."""
import hashlib, json, multiprocessing, os, signal, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import api, judge, models
from api import World, Broken, Failed
from interp import Stop
from dom import *
from llvmc import P

T0 = time.time()
LIMIT = float(os.environ.get('VERIF_LIMIT', '150'))     # seconds for one obligation
BUDGET = float(os.environ.get('VERIF_BUDGET', '560'))


class Ob:
    """one obligation: a closure returning a list of (verdict, text)"""
    __slots__ = ('key', 'rule', 'f')

    def __init__(self, key, rule, f):
        self.key, self.rule, self.f = key, rule, f


_W = None
_OBS = None


class Late(BaseException):
    pass


def _late(*a):
    raise Late()


def _run(i):
    signal.signal(signal.SIGALRM, _late)
    try:
        signal.setitimer(signal.ITIMER_REAL, max(1.0, min(LIMIT, BUDGET + 120 - (time.time() - T0))))
        return _run1(i)
    except Late:
        return (i, [('und', 'the time limit of one obligation is exhausted')], 0, 0, [], LIMIT)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _run1(i):
    W, ob = _W, _OBS[i]
    if time.time() - T0 > BUDGET:
        return (i, [('und', 'time budget exhausted before this obligation')], 0, 0, [], 0.0)
    e = W.eng
    e.covered = set()
    e.steps = 0
    e.paths = 0
    t = time.time()
    try:
        r = ob.f()
    except Failed as ex:
        s, o = next(((s, o) for s, o in ex.r if o[0] != 'ret'), ex.r[0] if ex.r else (None, None))
        if o is None:
            r = [('und', 'no path returns')]
        elif o[0] == 'ret':
            r = [('und', 'more cases than expected in a setup step')]
        else:
            r = [judge.outcome_verdict(s, o, 'setup')]
    except Stop as ex:
        r = [('und', 'analysis stopped: %s' % (ex.out[1:2],))]
    except Broken:
        raise
    except Exception as ex:
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
        r = [('und', 'analysis failed: %s: %s' % (type(ex).__name__, ex))]
    fns = sorted(f for f in e.covered if 'dingodb' in W.m.fns[f].dem and not W.m.fns[f].dem.startswith('std::'))
    return (i, r, e.steps, e.paths, fns, time.time() - t)


def known():
    p = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                d = dict(x.split('=', 1) for x in l[7:].split(' ', 1)[:1])
                out.append((d.get('property'), l[7:].split(' ', 1)[1]))
    return out


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.W = None
        self.obs = []
        self.rule = ''
        self.notes = []
        self.extra = {}
        self.assumptions = []

    def add(self, key, f, rule=''):
        self.obs.append(Ob(key, rule, f))

    def run(self):
        global _W, _OBS
        _W, _OBS = self.W, self.obs
        n = min(8, os.cpu_count() or 1)
        res = [None] * len(self.obs)
        if os.environ.get('VERIF_SERIAL') or len(self.obs) < 2:
            for i in range(len(self.obs)):
                res[i] = _run(i)
        else:
            import gc
            gc.freeze()
            with multiprocessing.get_context('fork').Pool(n) as pool:
                for r in pool.imap_unordered(_run, range(len(self.obs)), chunksize=1):
                    res[r[0]] = r
        return res

    def finish(self, res):
        bad, und, ok = [], [], []
        fns, steps, paths = set(), 0, 0
        cases = 0
        for i, r, st, pa, fn, dt in res:
            ob = self.obs[i]
            steps += st
            paths += pa
            fns.update(fn)
            cases += len(r)
            b = [t for v, t in r if v == 'bad']
            u = [t for v, t in r if v == 'und']
            if b:
                bad.append((ob, b, fn))
            elif u:
                und.append((ob, u))
            elif not r:
                und.append((ob, ['no path of the scenario reached the point of interest']))
            else:
                ok.append(ob)
        kn = [(p, t) for p, t in known() if p == self.pid]
        new = []
        for ob, b, fn in bad:
            m = [t for p, t in kn if ob.key.startswith(t)]
            if m:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, m[0]))
            else:
                new.append((ob, b, fn))
        dem = lambda f: self.W.m.fns[f].dem
        wall = time.time() - T0
        if os.environ.get('VERIF_SLOW'):
            for r in sorted(res, key=lambda r: -r[5])[:int(os.environ['VERIF_SLOW'])]:
                print('  %.1f s %s' % (r[5], self.obs[r[0]].key))
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
            'coverage': {
                'explanation': self.rule,
                'obligations': len(self.obs), 'discharged': len(ok), 'undecided': len(und), 'violated': len(new),
                'cases_compared': cases, 'paths_analysed': paths, 'instructions_interpreted': steps,
                'functions_analysed': len(fns), 'translation_units': len(self.W.meta['units']) if self.W else 0,
                'samples': [o.key for o in (ok[:3] + ok[len(ok) // 2:len(ok) // 2 + 3] + ok[-3:])],
                'undecided_list': ['%s: %s' % (o.key, u[0][:400]) for o, u in und[:60]],
                'functions': sorted(dem(f) for f in fns)[:400],
                'trusted_base': ['clang front end and sroa pass', 'transfer functions of libc, libm and std::string (sa/models.py)', 'abstract domains (sa/dom.py, sa/interp.py)'],
                'checker_cmd': 'python3 sa/check.py %s' % self.pid,
            },
            'assumptions': self.assumptions,
            'wall_s': round(wall, 2), 'violations': len(new),
        }
        ev['coverage'].update(self.extra)
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        tmp = os.path.join(ROOT, 'evidence', '.%s.%d' % (self.pid, os.getpid()))
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(ROOT, 'evidence', self.pid + '.json'))
        print('%s: %d obligations, %d discharged, %d undecided, %d violated; %d paths, %d instructions, %d functions of the library; %.1f s'
              % (self.pid, len(self.obs), len(ok), len(und), len(new), paths, steps, len(fns), wall))
        for o, u in und[:12]:
            print('  undecided: %s: %s' % (o.key, u[0][:300]))
        if new:
            rp = os.path.join(ROOT, 'evidence', self.pid + '.violations.txt')
            with open(rp, 'w') as f:
                for ob, b, fn in new:
                    f.write('%s\n  rule: %s\n' % (ob.key, ob.rule or self.rule))
                    for t in b[:8]:
                        f.write('  %s\n' % t)
                    f.write('  functions on the analysed paths:\n')
                    for x in fn:
                        f.write('    %s (%s)\n' % (dem(x), self.W.m.fnloc(x)))
                f.write('again: python3 sa/check.py %s\n' % self.pid)
            for ob, b, fn in new[:10]:
                print('  violated: %s: %s' % (ob.key, b[0]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if len(ok) * 2 < len(self.obs) and os.environ.get('VERIF_STRICT'):
            print('analysis broken: most obligations are undecided')
            return 2
        return 0
