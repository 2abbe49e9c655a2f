"""C03: the threads of a parallel region do not race"""
from scheme import *
from prep import prepares
from checks.c01 import under, own_row, pair_row, changed, used, PAIRS
import par


def own_write(s, a):
    """the row a write addresses is that of the work-shared loop"""
    return own_row(s, a, None)


def conflict(s, w, r):
    """may the entry written by one iteration be read by another one?"""
    if 'transposed' in r.how:
        # reads entry (j, i); the iteration of j writes (j, k) under its guard
        gw, gr = s.n(w.guard), s.n(r.guard)
        col = s.n(w.col) if w.col is not None else C
        for sig, other in (('<', '>'), ('>', '<')):
            if under(gr, sig).is_zero():
                continue
            if col == C and not under(gw, other).is_zero():
                return True
            if col != C and not col.is_zero():
                return True
        return False            # diagonal entries are never a transposed neighbour
    if r.kind == 'nb':
        if s.n(r.row) == I:
            return False
        return True
    return not own_row(s, r, None)


def phases(R, s):
    f = s.f
    groups = {}
    for p in s.phases:
        groups.setdefault(p.region, []).append(p)
    R.count('regions', len(groups))
    for reg, ps in groups.items():
        for p in ps:
            R.count('work-shared loops')
            tag = '%s:%d' % (s.tag, p.n)
            for w in p.writes():
                R.count('table writes')
                R.ok('%s:write:%s:%s' % (tag, short(w.array), w.line), own_write(s, w), f,
                     'an iteration writes only to its own row', lambda: '%s, line %s' % (clip(s.n(w.row)), w.line))
            for q in ps:
                for r in q.reads():
                    if 'transposed' not in r.how and r.kind == 'own' and own_row(s, r, None):
                        continue
                    for w in p.writes():
                        if w.array != r.array:
                            continue
                        R.count('read-write pairs')
                        bad = conflict(s, w, r)
                        if bad and isinstance(w.value, Arr):
                            bad = bool(changed(w) & used(q, r))
                        if q is not p and barrier(p, q, ps) and (q.n < p.n or ordered(p, q, ps)):
                            # loops separated by a barrier; a later loop must find every row written
                            continue
                        R.ok('%s:race:%s:%s-%s' % (tag, short(w.array), w.line, r.line), not bad, f,
                             'no iteration reads an entry another iteration of the same region changes', '%s: written in line %s, read in line %s' % (w.array, w.line, r.line))


def barrier(p, q, ps):
    lo, hi = min(p.n, q.n), max(p.n, q.n)
    return any(not x.nowait for x in ps if lo <= x.n < hi)


def ordered(p, q, ps):
    """all rows p's table covers are complete before q starts (same index space, different purpose)"""
    if p.range is None or q.range is None:
        return True
    (lo, hi), (lo2, hi2) = p.range, q.range
    return not (hi == lo2 or hi2 == lo)


def step(R, cfg):
    s, u = build(cfg)
    phases(R, s)


def prepare(R, cfg):
    for s in prepares(*cfg):
        phases(R, s)


def run(R):
    preload()
    par.preload(R.tier)
    R.rule('Inside a parallel region an iteration of a work-shared loop writes only entries of its own row, and reads entries of other rows only of tables (components, triangular halves) '
           'no iteration of that region changes. Everything else written inside a parallel region is private to the thread, atomic, or inside a single construct.')
    R.assume('the triples of the coupling boundary pairs are distinct (D04)')
    cfgs = configs(R.tier)
    R.each([('step',) + c for c in cfgs] + [('prepare', eq, d) for eq, _ in EQS for d in (1, 2, 3)],
           lambda r, c: step(r, c[1:]) if c[0] == 'step' else prepare(r, c[1:]))
    par.check(R, R.tier)
    R.floor('work-shared loops', 100)
    R.floor('table writes', 400)
