"""B03: every unconstrained row takes part in every stage, scalar and vectorised rows alike"""
from scheme import *
from checks.b02 import PAIRS

NI, NO = 'n_locally_internal_', 'n_locally_owned_'


def show(v):
    if isinstance(v, tuple):
        return '(%s)' % ', '.join(show(x) for x in v)
    if isinstance(v, (list,)):
        return show(tuple(v))
    return clip(v, 400) if isinstance(v, Value) else str(v)[:100]


def one(R, cfg):
    s, u = build(cfg)
    f = s.f
    R.count('configurations')

    def ok(what, cond, rule, detail=''):
        R.count('coverage obligations')
        return R.ok('%s:%s' % (s.tag, what), cond, f, rule, detail)
    cover(s, s.n, ok, s.phases)
    # the limiter step must not act on other rows than the low-order step
    g = set()
    for p in u.low + u.limit + [q for ps in u.passes for q in ps]:
        for a in p.writes():
            g.add(s.n(a.guard))
    ok('same-rows', len(g) == 1, 'all stages act on the same rows', lambda: show(tuple(g)))
    con = T.eq0(ONE - s.n(T.app('row_length', I, pos=True)))
    ok('guard', g == {ONE - con}, 'exactly the rows with more than one entry are updated', lambda: show(tuple(g)))


def cover(s, n, ok, phases):
    regions = {}
    for p in phases:
        regions.setdefault((p.region, pretty(p.guard) if getattr(p, 'guard', None) is not None else ''), []).append(p)
    for (r, g), ps in sorted(regions.items(), key=lambda x: (x[0][0] or 0, x[0][1])):
        # work on listed pairs or boundary points is not row work
        rows = [p for p in ps if 'size(' not in pretty(p.range[1]) and p.writes()]
        by = {}
        for p in rows:
            for a in p.writes():
                if a.kind != 'own':
                    continue
                col = n(a.col) if a.col is not None else None
                by.setdefault((short(a.array), show(col)), {}).setdefault(ranges(p), []).append(
                    (tuple(n(x) for x in flat(a.value)), n(a.guard), tuple(str(n(l[1:])) if False else tuple(show(n(x)) if isinstance(x, Value) else str(x) for x in l) for l in a.loops[1:])))
        for (arr, col), d in sorted(by.items()):
            tag = 'region%s:%s%s' % (r, arr, '' if col == 'None' else '[%s]' % col)
            rs = sorted(d)
            if not ok(tag + ':rows', rs in ([('0', NO)], [('0', NI), (NI, NO)]), 'the loops of a stage cover all locally owned rows exactly once', str(rs)):
                continue
            if len(rs) == 2:
                x, y = d[rs[0]], d[rs[1]]
                if not ok(tag + ':writes', len(x) == len(y), 'scalar and vectorised rows write the same tables', '%d / %d' % (len(x), len(y))):
                    continue
                for k, (v, w) in enumerate(zip(x, y)):
                    ok(tag + ':value%d' % k, v[0] == w[0], 'scalar and vectorised rows compute the same values', lambda: show(tuple(a - b for a, b in zip(v[0], w[0]) if a != b)))
                    ok(tag + ':guard%d' % k, v[1] == w[1], 'scalar and vectorised rows are written under the same condition', lambda: show(v[1]) + ' / ' + show(w[1]))
                    ok(tag + ':columns%d' % k, len(v[2]) == len(w[2]) and all(tail(a) == tail(b) for a, b in zip(v[2], w[2])), 'scalar and vectorised rows visit the same entries', str((v[2], w[2]))[:300])


def tail(l):
    t = str(l)
    return re.sub(r'iv\([^()]*\)', 'iv', t)


def run(R):
    preload()
    R.rule('Every loop over rows is summarised with its range, guards and written values; within a stage the ranges must partition the locally owned rows, '
           'and the normal forms written by the vectorised and the scalar loop must coincide.')
    R.each(configs(R.tier), one)
    R.floor('configurations', 6)
    R.floor('coverage obligations', 500)
