"""Collecting obligations, evidence and verdicts of one check."""
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback

from . import pyabs

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(ROOT, 'known_findings.txt')

PROVED, AGREE, BAD, OPEN = 'proved', 'agree', 'violation', 'open'


class Valued(str):
    """a violation shown by two known values that differ; it stands even when other parts of the same run were not
    understood (an unknown value is never compared)"""


VBAD = Valued(BAD)


class Broken(Exception):
    """the analysis itself cannot run (a vanished anchor)"""


def rec(key, status, where='', detail='', n=0, rule=''):
    return {'key': key, 'status': status, 'where': where, 'detail': detail, 'n': n, 'rule': rule}


def weigh(recs):
    """a violation that rests on the course of a run (an exception, a missing result, a refusal) is only claimed when
    every construct of that run was understood; one that rests on values, when no effect was lost"""
    if not pyabs.DOUBT and not pyabs.LOST:
        return recs
    out = []
    for r in recs:
        if r['status'] == BAD and (pyabs.LOST or not isinstance(r['status'], Valued)):
            why = (pyabs.LOST or pyabs.DOUBT)[0]
            r = dict(r, status=OPEN, detail='%s [not understood: %s at %s]' % ((r['detail'],) + why))
        out.append(r)
    return out


class Timeout(BaseException):
    pass


START = time.time()
BUDGET = {'quick': 600, 'thorough': 6000}       # seconds for a whole check; what is left then is open
MEMORY = 3584 << 20


def _alarm(signum, frame):
    raise Timeout()


def _job(a):
    fn, args, limit = a
    t = time.time()
    limit = min(limit, START + BUDGET[os.environ.get('SA_TIER', 'quick')] - t)
    if limit < 1:
        return [rec('%s%r' % (fn.__name__, args), OPEN, detail='time budget of the check')], None, 0, []
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit))
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
        sys.setrecursionlimit(20000)
        r = fn(*args)
        signal.alarm(0)
        return weigh(r), None, time.time() - t, (pyabs.LOST + pyabs.DOUBT)[:5]
    except Timeout:
        return [rec('%s%r' % (fn.__name__, args), OPEN, detail='time limit of %d s' % limit)], None, time.time() - t, []
    except MemoryError:
        return [rec('%s%r' % (fn.__name__, args), OPEN, detail='memory')], None, time.time() - t, []
    except Exception as e:
        signal.alarm(0)
        return [], (type(e).__name__, '%s' % e, traceback.format_exc()), time.time() - t, []
    finally:
        signal.alarm(0)


def parallel(jobs, limit=600, procs=8):
    """jobs: [(function, args)]; each returns a list of records.  Runs in forked workers."""
    out, errs, doubts = [], [], []
    jobs = list(jobs)
    if not jobs:
        return out, errs, doubts
    ctx = mp.get_context('fork')
    with ctx.Pool(min(procs, len(jobs)), maxtasksperchild=1) as pool:
        it = pool.imap(_job, [(f, a, limit) for f, a in jobs], chunksize=1)
        for j in jobs:
            try:
                # a worker that died never answers
                r, e, t, d = it.next(max(1, START + BUDGET[os.environ.get('SA_TIER', 'quick')] + 30 - time.time()))
            except mp.TimeoutError:
                out.append(rec('%s%r' % (j[0].__name__, j[1]), OPEN, detail='no answer from the worker'))
                continue
            out += r
            if e:
                errs.append((j[0].__name__, repr(j[1])) + e)
            doubts += [x for x in d if x not in doubts]
    return out, errs, doubts


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.recs = []
        self.errs = []
        self.doubts = []           # constructs of the runs that were not understood
        self.info = {}
        self.assumptions = []
        self.minimum = 1
        self.level = 'other'
        self.explanation = ''
        self.rule = ''
        self.trusted = []

    def add(self, recs):
        self.recs += weigh(recs)

    def run(self, jobs, limit=600, procs=8):
        r, e, d = parallel(jobs, limit, procs)
        self.doubts += [x for x in d if x not in self.doubts]
        self.recs += r
        self.errs += e
        return r

    # -------------------------------------------------------------- outcome
    def findings(self):
        known = []
        if os.path.exists(FINDINGS):
            with open(FINDINGS) as fh:
                for line in fh:
                    line = line.strip()
                    if line.startswith('known:'):
                        d = dict(p.split('=', 1) for p in line[6:].split(' -- ')[0].split())
                        if d.get('property') == self.prop:
                            known.append((d['key'], line.split(' -- ', 1)[1] if ' -- ' in line else ''))
        return known

    def finish(self):
        for e in self.errs:
            # a job that could not be completed decides nothing: its obligations are open
            self.recs.append(rec('job %s%s' % e[:2], OPEN, '', '%s: %s' % (e[2], e[3])))
        by = {}
        for r in self.recs:
            by.setdefault(r['status'], []).append(r)
        known = self.findings()
        bad, listed = [], {}
        for r in by.get(BAD, []):
            for k, text in known:
                if r['key'] == k or (k.endswith('*') and r['key'].startswith(k[:-1])):
                    listed.setdefault(k, (text, []))[1].append(r)
                    break
            else:
                bad.append(r)
        nobl = len(self.recs)
        done = len(by.get(PROVED, [])) + len(by.get(AGREE, []))
        cov = {
            'obligations': nobl, 'discharged': done,
            'proved_by_normal_form': len(by.get(PROVED, [])),
            'equal_under_random_interpretation': len(by.get(AGREE, [])),
            'open': len(by.get(OPEN, [])),
            'points_compared': sum(r['n'] for r in self.recs),
            'rule': self.rule, 'explanation': self.explanation,
            'checker_cmd': 'python3 check.py %s --tier %s' % (self.prop, self.tier),
            'trusted_base': self.trusted,
            'samples': [_short(r) for r in self._samples()],
        }
        cov.update(self.info)
        if self.doubts:
            cov['not_understood'] = ['%s at %s' % x for x in self.doubts[:20]]
        if by.get(OPEN):
            cov['open_obligations'] = [_short(r) for r in by[OPEN][:40]]
        if self.level == 'translation_validation':
            cov['programs'] = nobl
            cov['disagreements_checked'] = len(by.get(BAD, []))
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(bad)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        path = os.path.join(ROOT, 'evidence', self.prop + '.json')
        with open(path, 'w') as fh:
            json.dump(ev, fh, indent=1)
        for k, (text, rs) in listed.items():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, text or k))
        print('%s (%s): %d obligations, %d discharged (%d by normal form, %d by random interpretation), %d open, '
              '%d violated, %.1f s' % (self.prop, self.tier, nobl, done, cov['proved_by_normal_form'],
                                       cov['equal_under_random_interpretation'], cov['open'],
                                       len(by.get(BAD, [])), time.time() - self.t0))
        for k in sorted(self.info):
            v = self.info[k]
            if isinstance(v, (int, float, str)):
                print('  analysed %s: %s' % (k, v))
        for x in self.doubts[:5]:
            print('  not understood: %s at %s' % x)
        for r in by.get(OPEN, [])[:10]:
            print('  open: %s: %s' % (r['key'], r['detail']))
        rp = os.path.join(ROOT, 'evidence', self.prop + '.violations.txt')
        if bad:
            with open(rp, 'w') as fh:
                for r in bad:
                    fh.write('%s\n  rule: %s\n  at: %s\n  %s\n' % (r['key'], r['rule'] or self.rule, r['where'],
                                                                   r['detail']))
            for r in bad[:25]:
                print('  %s: %s: %s' % (r['where'] or '?', r['key'], r['detail']))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        if os.path.exists(rp):
            os.remove(rp)
        for e in self.errs[:5]:
            print('ANALYSIS ERROR in %s%s: %s: %s' % e[:4])
            print(e[4])
        # far fewer than usual: the analysis itself is broken (a refactoring may leave part of them open)
        if done < max(1, self.minimum // 20):
            print('ANALYSIS ERROR: %d obligations (at least %d expected), %d discharged' % (nobl, max(1, self.minimum // 20), done))
            return 2
        return 0

    def _samples(self):
        seen, out = set(), []
        for r in self.recs:
            if r['status'] in (PROVED, AGREE) and (r['status'], r['key'].split('/')[0]) not in seen:
                seen.add((r['status'], r['key'].split('/')[0]))
                out.append(r)
        return out[:12]


def _short(r):
    return '%s: %s%s%s' % (r['key'], r['status'], (' at ' + r['where']) if r['where'] else '',
                           (' (%s)' % r['detail']) if r['detail'] else '')
