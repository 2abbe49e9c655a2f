"""A11: the entropy-viscosity indicator"""
import contextlib
from eqs import *
from checks.a10 import noeps

EVC, HD = S('evc', True), S('hd', True)
RULE = {
    'value': 'the indicator is the entropy commutator of the stencil over its normalisation, scaled and limited to one',
    'constant': 'the indicator vanishes where the stencil carries one and the same state',
    'range': 'the indicator is at least zero and at most one',
    'diagonal': 'the row itself adds nothing to the commutator',
}


def indicator(e):
    par = e.M.configure('ryujin::%s::IndicatorParameters<double>' % e.ns, params={'evc factor': EVC})
    return e.M.construct(e.cls('Indicator'), [e.system, par, Opaque('pv')])


@contextlib.contextmanager
def exact(e):
    old = e.I.naming
    e.I.naming = {(T.const(k) * x).fp: ZERO for k in (1, 10, 100, 1000) for x in (EPS, S('dblmin', True))}
    try:
        yield
    finally:
        e.I.naming = old


def evaluate(e, tables, states, cs):
    """fresh object per row; then once more on the used object: a reset forgets the previous row"""
    fn = e.pfn('indicator')
    t = {('pv', 'at(i)'): tables[0]}
    for k in range(3):
        t[('pv', 'at(*js%d)' % k)] = tables[k]
    js = [S('js%d' % k) for k in range(3)]
    with exact(e):
        this = indicator(e)
        args = [S('i')] + js + list(states) + [vec(*c) for c in cs] + [HD]
        one = e.with_tables(t, lambda: e.M.run(fn, [this] + args, keep=True))
        two = e.with_tables(t, lambda: e.M.run(fn, [this] + args, keep=True))
        return noeps(one), noeps(two)


def parts(e, n):
    """states, tables and the expected (left, [right terms], normalisation, regularity assumptions) for n different states"""
    dim = e.dim
    cs = [names('c%d_' % k, dim) for k in range(3)]
    asm = []
    if isinstance(e, Scalar):
        us = [S('u%d' % k) for k in range(n)]
        fs = [names('f%d_' % k, dim) for k in range(n)]
        return cs, [vec(x) for x in us], [vec(*f) for f in fs], (us, fs), asm
    st, tb, raw = [], [], []
    for k in range(n):
        s = e.state(str(k))
        st.append(s[3] if not isinstance(e, ShallowWater) else s[2])
        raw.append(s)
        if isinstance(e, Euler):
            tb.append(vec(S('s%d' % k, True), S('eta%d' % k)))
        elif isinstance(e, EulerAEOS):
            tb.append(vec(S('p%d' % k), ONE + S('gm%d' % k, True), S('s%d' % k, True), S('eta%d' % k)))
        else:
            tb.append(vec(S('eta%d' % k), S('hs%d' % k, True)))
            asm += [s[0] - e.cut_small, s[0] - e.cut_large]
    return cs, st, tb, raw, asm


def expected(e, cs, st, tb, raw):
    dim = e.dim
    n = len(st)
    if isinstance(e, Scalar):
        us, fs = raw
        deta = [e.member('kruzkov_entropy_derivative', us[0], u) for u in us]
        left = right = ZERO
        for k in range(n):
            left = left + deta[k] * dot(fs[k], cs[k])
            right = right + deta[k] * dot(fs[0], cs[k])
        umax = T.absval(us[0])
        for u in us[1:]:
            umax = T.vmax(umax, T.absval(u))
        return T.absval(left - right), T.absval(left) + T.absval(right) + HD * umax
    if isinstance(e, ShallowWater):
        eta = [t.e[0] for t in tb]
        d = e.member('mathematical_entropy_derivative', st[0])
        pr = [HALF * G * s[0] * s[0] for s in raw]

        def flux(s, p):
            h, u, U = s
            return [[h * x for x in u]] + [[h * u[a] * u[b] + (p if a == b else ZERO) for b in range(dim)] for a in range(dim)]
        F = [flux(s, p) for s, p in zip(raw, pr)]
        left = ZERO
        for k in range(n):
            left = left + (eta[k] + pr[k]) * dot(raw[k][1], cs[k])
        right = [sum([dot([x - y for x, y in zip(F[k][m], F[0][m])], cs[k]) for k in range(n)], ZERO) for m in range(dim + 1)]
        tot = sum([d.e[m] * right[m] for m in range(dim + 1)], ZERO)
        return T.absval(left - tot), T.absval(left) + T.absval(tot) + HD * T.absval(eta[0])
    if isinstance(e, Euler):
        eta = [t.e[1] for t in tb]
        d = list(e.member('harten_entropy_derivative', st[0]).e)
        F = [e.flux(r[0], r[1], r[2]) for r in raw]
    else:
        gm = tb[0].e[1]
        eta = [tb[0].e[3]] + [e.member('surrogate_harten_entropy', U, gm) for U in st[1:]]
        d = list(e.member('surrogate_harten_entropy_derivative', st[0], eta[0], gm).e)
        F = [e.flux(r[0], r[1], r[2], e.member('surrogate_pressure', U, gm)) for r, U in zip(raw, st)]
    d[0] = d[0] - eta[0] / raw[0][0]
    left = ZERO
    for k in range(1, n):
        left = left + (eta[k] / raw[k][0] - eta[0] / raw[0][0]) * dot(raw[k][1], cs[k]) * raw[k][0]
    right = [sum([dot([x - y for x, y in zip(F[k][m], F[0][m])], cs[k]) for k in range(1, n)], ZERO) for m in range(dim + 2)]
    num, den = left, T.absval(left) + HD * T.absval(eta[0])
    for m in range(dim + 2):
        num = num - d[m] * right[m]
        den = den + T.absval(d[m] * right[m])
    return T.absval(num), den


def one(R, e):
    fn = e.fn('alpha', 'Indicator')

    def ok(key, cond, detail=''):
        R.count('indicator obligations')
        R.ok('%s:%s' % (e.tag, key), cond, fn, RULE[key.split(':')[0]], detail)
    cs, st, tb, raw, asm = parts(e, 3)
    with T.assuming(*asm):
        with exact(e):
            if isinstance(e, EulerAEOS):     # the precomputation stores the entropy of the row
                tb[0] = vec(*tb[0].e[:3], e.member('surrogate_harten_entropy', st[0], tb[0].e[1]))
        got, again = evaluate(e, tb, st, cs)
        with exact(e):
            num, den = expected(e, cs, st, tb, raw)
        want = noeps(T.vmin(ONE, EVC * num / den))
        ok('value', got == want, lambda: 'found %s, required %s' % (pretty(got)[:900], pretty(want)[:900]))
        ok('value:of the next row', again == want, lambda: 'found %s, required %s' % (pretty(again)[:900], pretty(want)[:900]))
        # the range: both ends
        ok('range', T.vmin(got, ONE) == got, lambda: pretty(got)[:600])
    cs, st, tb, raw, asm = parts(e, 1)
    # constant state: the coefficients of a row sum to zero
    z = [-(a + b) for a, b in zip(cs[1], cs[2])]
    if isinstance(e, EulerAEOS):
        # entropy of the row as the precomputation stores it
        tb = [vec(*tb[0].e[:3], e.member('surrogate_harten_entropy', st[0], tb[0].e[1]))]
    with T.assuming(*asm):
        got, again = evaluate(e, tb * 3, st * 3, [z, cs[1], cs[2]])
        ok('constant', got.is_zero() and again.is_zero(), lambda: pretty(got)[:600])


def run(R):
    preload()
    R.rule('Reset, accumulation over a stencil of three and evaluation of every indicator are executed abstractly; the result must be '
           'the normalised entropy commutator, at most one, must vanish on constant states and must not depend on what the object evaluated before.')
    R.assume('Entropies, their derivatives, pressures and surrogate pressures are the ones decided by A05; fluxes by A01. Machine limits are zero, depths above the cut-offs.')
    items = [(c, dim, v) for c in (Euler, EulerAEOS, ShallowWater, Scalar) for dim, v in variants()]
    R.each(items, lambda r, x: one(r, get(*x)))
    R.floor('indicator obligations', 96)
