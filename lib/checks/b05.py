"""B05: local bounds and smoothness indicator are collected over the full stencil"""
from scheme import *
from checks.b04 import single, full


def one(R, cfg):
    s, u = build(cfg)
    f = s.f
    ref = u.ref
    m = u.ncomp()
    R.count('configurations')

    def ok(what, cond, rule, detail=''):
        R.count('protocol obligations')
        return R.ok('%s:%s' % (s.tag, what), cond, f, rule, detail)

    M = ref.off('lumped_mass_matrix', I)
    hd = M * T.inv(ref.off('measure_of_omega')) if False else None

    def relative(v):
        """m_i / |Omega|"""
        x = v * T.inv(M)
        y = list(x.t.items())
        return len(y) == 1 and y[0][1] == 1 and len(y[0][0]) == 1 and y[0][0][0][1] == -1 and y[0][0][0][0].name.endswith('measure_of_omega_')

    def norm(x):
        return normalise(s.n(x), s)

    def stencil(x, tag, what, entry, start):
        """x denotes start, then the diagonal entry, then all other entries"""
        r = single(x)
        if not ok(tag + '-loop', r is not None and r.name == 'recur' and full([tuple(pretty(a) if isinstance(a, Value) else str(a) for a in r.args[0])] if isinstance(r.args[0], tuple) else [str(r.args[0])], 1),
                  what + ' visits all neighbours', lambda: clip(x)):
            return
        la, phi, end, init = r.args
        want = entry(phi, J, C)
        ok(tag + '-neighbour', norm(end) == norm(want), what + ' takes the data of the neighbour', lambda: clip(norm(end) - norm(want), 800))
        want = entry(start, I, ZERO)
        ok(tag + '-diagonal', norm(init) == norm(want), what + ' starts afresh with the data of the row', lambda: clip(norm(init) - norm(want), 800))
    Ut = lambda x: tuple(ref.U(x))

    def ind(state, x, col):
        return T.app('Indicator.accumulate', state, x, Ut(x), tuple(ref.c(col)))
    start = T.app('Indicator.reset', I, Ut(I))
    n = 0
    for p in u.alpha:
        for a in writes(p, 'alpha'):
            n += 1
            tag = 'alpha:%s..%s' % ranges(p)
            v = norm(a.value)
            x = single(v)
            if ok(tag, x is not None and x.name == 'Indicator.alpha' and len(x.args) == 2, 'the indicator of a row is the one of its stencil', lambda: clip(v)):
                ok(tag + '-size', relative(x.args[1]), 'the indicator scales with the relative size of the row', lambda: clip(x.args[1]))
                stencil(x.args[0], tag, 'the indicator', ind, start)
    ok('alpha-phases', n >= 1, 'the indicator is computed', str(n))
    # limiter bounds
    reg = T.const(100) * T.app('dblmin') if False else None

    def scaled(col):
        d = norm(ref.dij(col))
        mins = [a for p in u.low for w in writes(p, 'bounds') for a in norm(flat(w.value)[0]).deep_atoms() if a.name == 'dblmin']
        floor = T.vmax(d, T.const(100) * T.atom_value(mins[0])) if mins else d
        return tuple(x * T.inv(floor) for x in ref.c(col))

    def shift(k):
        if not ref.sw:
            return ZERO
        body = T.app('affine_shift[%d]' % k, ref.flux(I), ref.flux(J), ref.c(C), ref.dij(C))
        diag = T.app('affine_shift[%d]' % k, ref.flux(I), ref.flux(I), ref.c(ZERO), ref.dij(ZERO))
        return body, diag

    def is_shift(v):
        """tau/m_i times the stencil sum of the shifts plus the source"""
        for k, x in enumerate(v):
            x = norm(x)
            if not ref.sw:
                if not x.is_zero():
                    return 'component %d: %s' % (k, clip(x))
                continue
            rest, body, loops = split_sum(x)
            b, d = shift(k)
            w = ref.tau * ref.minv(I)
            if not full(loops, 1) or body != norm(w * b) or rest != norm(w * d + ref.tau * ref.source(I, k)):
                return 'component %d: %s' % (k, clip(x, 800))
        return ''

    shifts = []

    def lim(state, x, col):
        if ref.sw:
            a, b = ref.flux(I), ref.flux(x)
            return T.app('Limiter.accumulate', state, Ut(x), tuple(T.app('equilibrated_states[0][%d]' % k, a, b) for k in range(m)),
                         tuple(T.app('equilibrated_states[1][%d]' % k, a, b) for k in range(m)), scaled(col), shifts[0])
        return T.app('Limiter.accumulate', state, x, Ut(x), ref.flux(x), scaled(col), shifts[0])
    start = T.app('Limiter.reset', I, Ut(I), ref.flux(I))
    n = 0
    nb = None
    for p in u.low:
        for a in writes(p, 'bounds'):
            comps = flat(a.value)
            nb = len(comps)
            for k, v in enumerate(comps):
                n += 1
                tag = 'bounds:%s..%s:%d' % (ranges(p) + (k,))
                v = norm(v)
                x = single(v)
                if not ok(tag, x is not None and x.name == 'Limiter.bounds[%d]' % k and len(x.args) == 2, 'the bounds of a row are those of its stencil', lambda: clip(v)):
                    continue
                ok(tag + '-size', relative(x.args[1]), 'the relaxation scales with the relative size of the row', lambda: clip(x.args[1]))
                if k == 0:
                    acc = [y for y in x.args[0].deep_atoms() if y.name == 'Limiter.accumulate']
                    del shifts[:]
                    shifts.append(acc[0].args[-1] if acc else tuple([ZERO] * m))
                    ok(tag + '-shifts', len({y.args[-1] for y in acc}) == 1, 'all neighbours use the same affine shift', '')
                    bad = is_shift(shifts[0])
                    ok(tag + '-shift', not bad, 'the affine shift collects the whole stencil and the source', bad)
                stencil(x.args[0], tag, 'the bounds', lim, start)
    ok('bounds-phases', n >= 1 or s.eq == 'skeleton', 'bounds are computed', str(n))
    if cfg[3] and s.dg and nb:
        # discontinuous ansatz: bounds are extended over the stencil
        for p in u.limit:
            for a in writes(p, 'lij_matrix'):
                x = single(norm(a.value))
                if s.n(a.col) != C or x is None or x.name != 'Limiter.limit<0>':
                    continue
                tag = 'extend:%s..%s' % ranges(p)
                low = u.low[0].region
                own = [[q for q in p.writes() if short(q.array) == 'bounds']]
                name = [q.array for q in u.low[0].writes() if short(q.array) == 'bounds'][0]
                b = x.args[0]
                at = lambda k, r: T.app('%s@%s[%d]' % (name, low, k), r)
                phis = None
                good = True
                for k, y in enumerate(b):
                    r = single(y)
                    good = good and r is not None and r.name == 'recur' and full([str(tuple(pretty(z) if isinstance(z, Value) else str(z) for z in r.args[0]) if isinstance(r.args[0], tuple) else r.args[0])], 1) \
                        and norm(r.args[3]) == at(k, I)
                    e = single(norm(r.args[2])) if good else None
                    good = good and e is not None and e.name == 'Limiter.combine_bounds[%d]' % k and len(e.args) == 2
                    if good:
                        ph, other = e.args
                        if tuple(other) != tuple(at(q, J) for q in range(nb)):
                            ph, other = other, ph
                        good = tuple(other) == tuple(at(q, J) for q in range(nb)) and ph[k] == norm(r.args[1])
                ok(tag, good, 'the bounds of a row are combined with the original bounds of all its neighbours', lambda: clip(tuple(b), 900))


def run(R):
    preload()
    R.rule('Limiter and indicator are abstract objects whose state is the sequence of calls made on them; the state at the point where bounds and indicator are read '
           'must be: reset with the data of the row, accumulate for the row itself and every neighbour with that neighbour\'s state, flux and stencil vector.')
    R.each([c for c in configs(R.tier) if c[3] == 2 or R.tier != 'quick'], one)
    R.floor('configurations', 6)
    R.floor('protocol obligations', 400)
