"""Obligations, verdicts, evidence."""
import json
import os
import re
import sys
import time
import traceback
from interp import AnalysisError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')


def known_findings(prop):
    r = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                r[m.group(2)] = m.group(3)
    return r


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.obligations = 0
        self.fails = {}          # key -> (where, rule, detail)
        self.counts = {}
        self.rules = []
        self.assumptions = []
        self.samples = []
        self.analysed = set()

    def rule(self, text):
        self.rules.append(text)

    def assume(self, text):
        self.assumptions.append(text)

    def count(self, kind, n=1):
        self.counts[kind] = self.counts.get(kind, 0) + n

    def where(self, f):
        if f is None:
            return ''
        if isinstance(f, dict):
            s = '%s:%s (%s)' % (f.get('file', '?'), f.get('l', '?'), f.get('q', f.get('n', '')))
            self.analysed.add(f.get('q', f.get('n', '')))
            return s
        return str(f)

    def ok(self, key, cond, where, rule, detail=''):
        """one obligation; key identifies it independently of line numbers"""
        self.obligations += 1
        w = self.where(where)
        key = re.sub(r'\s+', '_', key)
        if len(self.samples) < 12 and (self.obligations % 7 == 1):
            self.samples.append('%s @ %s: %s' % (key, w, rule[:160]))
        if not cond:
            if callable(detail):
                detail = detail()
            self.fails.setdefault(key, (w, rule, str(detail)[:1500]))
        return bool(cond)

    def floor(self, kind, n):
        """the analysis is broken when it saw fewer instances than confirmed by hand"""
        if self.counts.get(kind, 0) < n:
            raise AnalysisError('only %d %s analysed, at least %d expected' % (self.counts.get(kind, 0), kind, n))

    def each(self, items, fn, workers=8):
        """fn(run, item) for every item, in forked workers"""
        import pickle
        import struct
        items = list(items)
        workers = min(workers, len(items))
        if workers <= 1 or os.environ.get('VERIF_SERIAL'):
            for x in items:
                fn(self, x)
            return
        qr, qw = os.pipe()
        os.write(qw, b''.join(struct.pack('i', k) for k in range(len(items))))
        os.close(qw)
        kids = []
        for w in range(workers):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                out = []
                try:
                    os.close(r)
                    while True:
                        b = os.read(qr, 4)
                        if len(b) < 4:
                            break
                        k = struct.unpack('i', b)[0]
                        sub = Run(self.prop, self.tier)
                        err = None
                        try:
                            fn(sub, items[k])
                        except AnalysisError as e:
                            err = str(e)
                        except Exception as e:
                            err = 'internal: %r' % e
                            if os.environ.get('VERIF_TRACE'):
                                traceback.print_exc()
                        out.append((k, sub.obligations, sub.fails, sub.counts, sub.samples, sub.analysed, err))
                    data = pickle.dumps(out)
                    with os.fdopen(wr, 'wb') as fh:
                        fh.write(data)
                finally:
                    os._exit(0)
            os.close(wr)
            kids.append((pid, r))
        os.close(qr)
        got = []
        for pid, r in kids:
            with os.fdopen(r, 'rb') as fh:
                data = fh.read()
            os.waitpid(pid, 0)
            if data:
                got += pickle.loads(data)
        done = {g[0] for g in got}
        errs = []
        for k, ob, fails, counts, samples, analysed, err in sorted(got, key=lambda g: g[0]):
            self.obligations += ob
            for a, b in fails.items():
                self.fails.setdefault(a, b)
            for a, b in counts.items():
                self.count(a, b)
            self.samples = (self.samples + samples)[:12] if len(self.samples) < 12 else self.samples
            self.analysed |= analysed
            if err:
                errs.append('%s: %s' % (items[k], err))
        if len(done) != len(items):
            errs.append('%d work items were lost' % (len(items) - len(done)))
        if errs:
            raise AnalysisError('; '.join(errs)[:2000])

    def finish(self):
        known = known_findings(self.prop)
        new = {k: v for k, v in self.fails.items() if k not in known}
        for k, v in self.fails.items():
            if k in known:
                print('KNOWN-FINDING: property=%s %s [%s] at %s' % (self.prop, known[k], k, v[0]))
        ev = {
            'property': self.prop,
            'tier': self.tier,
            'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': 'other',
            'coverage': {
                'explanation': 'Static analysis of the resolved source of /repo/source. ' + ' '.join(self.rules),
                'obligations': self.obligations,
                'discharged': self.obligations - len(self.fails),
                'functions_analysed': len(self.analysed),
                'instances': self.counts,
                'samples': self.samples or ['none'],
                'known_findings': sorted(k for k in self.fails if k in known),
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 3),
            'violations': len(new),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
        rep = os.path.join(VERIF, 'evidence', self.prop + '.violations.txt')
        if new:
            with open(rep, 'w') as fh:
                for k, (w, rule, d) in new.items():
                    fh.write('%s\n  at:   %s\n  rule: %s\n  found: %s\n\n' % (k, w, rule, d))
            for k, (w, rule, d) in list(new.items())[:8]:
                print('%s\n  at:   %s\n  rule: %s\n  found: %s' % (k, w, rule[:400], d[:600]))
            print('VIOLATION property=%s replay=%s' % (self.prop, rep))
            return 1
        if os.path.exists(rep):
            os.unlink(rep)
        print('%s: %d obligations, %d functions, %s, %.1f s' % (
            self.prop, self.obligations, len(self.analysed), self.counts, time.time() - self.t0))
        return 0


def main(prop, tier):
    import importlib
    sys.setrecursionlimit(20000)
    R = Run(prop, tier)
    try:
        mod = importlib.import_module('checks.' + prop.lower())
        mod.run(R)
        if not R.obligations:
            raise AnalysisError('no obligation was generated')
        return R.finish()
    except AnalysisError as e:
        if R.fails and set(R.fails) - set(known_findings(prop)):
            print('note: analysis incomplete: %s' % e)
            return R.finish()
        print('%s: analysis broken: %s' % (prop, e))
        if os.environ.get('VERIF_TRACE'):
            traceback.print_exc()
        return 2
    except Exception as e:
        print('%s: analysis error: %r' % (prop, e))
        traceback.print_exc()
        return 2
