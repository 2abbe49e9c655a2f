"""A10: convex limiting"""
import re
from fractions import Fraction
from eqs import *

L = T.lift
RELAX, TOL = S('relax', True), S('tol', True)
BIG = Fraction(10) ** 300


def noeps(v):
    """the value for exact arithmetic: the machine epsilon is zero"""
    if isinstance(v, Arr):
        return Arr([noeps(x) for x in v.e], v.t)
    at = next(iter(EPS.atoms()))
    mp = {at: ZERO}
    for x in v.deep_atoms():
        if x.kind == 'sym' and x.name == 'dblmin':
            mp[x] = ZERO
    return T.subst(v, mp)


class Lim:
    """a limiter with symbolic parameters"""

    def __init__(self, e, iters=1, **flags):
        self.e = e
        p = {'newton max iterations': T.const(iters), 'newton tolerance': TOL, 'relaxation factor': RELAX}
        if isinstance(e, Scalar):
            p = {'relaxation factor': RELAX}
        p.update(flags)
        par = e.M.configure('ryujin::%s::LimiterParameters<double>' % e.ns, params=p)
        self.this = e.M.construct(e.cls('Limiter'), [e.system, par, Opaque('pv')])
        self.log = []

    def newton(self, I, ex, fr):
        if len(ex['a']) < 6:
            return NotImplemented
        a = [I.deref(I.eval(x, fr), 'double') for x in ex['a']]
        sign = a[6] if len(a) > 6 else ONE
        n = len(self.log)
        self.log.append(a[:6] + [sign])
        for k in (0, 1):
            I.assign(I.lv(ex['a'][k], fr), S('N%d%s' % (n, 'lr'[k]), True), ex, fr)
        return ZERO

    def limit(self, B, U, P, t0, t1, exact=True):
        """with exact arithmetic the machine limits are zero from the start"""
        e = self.e
        if exact:
            e.I.naming = {(T.const(k) * x).fp: ZERO for k in (1, 10, 100, 1000) for x in (EPS, S('dblmin', True))}
            try:
                return self.limit(B, U, P, t0, t1, False)
            finally:
                e.I.naming = None
        self.log = []
        old = e.I.hooks.get('quadratic_newton_step')
        e.I.hooks['quadratic_newton_step'] = self.newton
        try:
            r = e.M.run(e.fn('limit', 'Limiter'), [vec(*B), U, P, t0, t1], self.this)
        finally:
            if old is None:
                del e.I.hooks['quadratic_newton_step']
            else:
                e.I.hooks['quadratic_newton_step'] = old
        if not isinstance(r, Arr) or len(r.e) != 2:
            raise AnalysisError('result of the limiter: %s' % pretty(r)[:200])
        return r.e

    def member(self, n, *args, keep=False, tables=None):
        e = self.e
        return e.with_tables(tables or {}, lambda: e.M.run(e.fn(n, 'Limiter'), list(args), self.this, keep=keep))

    def bounds_now(self):
        return flat(self.e.M.field(self.this, 'bounds_'))


# kinds of the bounds and the functionals they bound
KINDS = {'Euler': ['min', 'max', 'min'], 'EulerAEOS': ['min', 'max', 'min', 'min'],
         'ShallowWater': ['min', 'max', 'min', 'max', 'max'], 'ScalarConservation': ['min', 'max']}


def regimes(first):
    """(name, [minimum, value, maximum], increment, t_min, t_max, resulting t) for the first functional; real arithmetic with regularisation"""
    a, y, z, d, p = [S(n, True) for n in ('a', 'y', 'z', 'd', 'p')]
    t0, w = S('t0', True), S('w', True)
    yield 'inside, increasing', [a, a + y, a + y + p * (t0 + w) + d], p, t0, t0 + w, t0 + w
    yield 'inside, decreasing', [a, a + p * (t0 + w) + d, a + p * (t0 + w) + d + z], -p, t0, t0 + w, t0 + w
    # t0 is below one here
    yield 'above', [a, a + y, a + y + t0 * p], p, ZERO, ONE, t0
    yield 'below', [a, a + t0 * p, a + t0 * p + z], -p, ZERO, ONE, t0
    yield 'outside, above', [a, a + y + z, a + y], p, t0, t0 + w, t0
    yield 'outside, below', [a + y, a, a + y + z], -p, t0, t0 + w, t0


def nested(T0, t0, steps, psis):
    """what repeated quadratic Newton steps from the bracket [t0, T0] return: (t, all left states good)"""
    l, r = t0, T0
    val = None
    out = []
    for n in range(steps):
        good = T.gt0(psis(r))
        out.append((good, r, T.gt0(r - l - TOL), l))
        l, r = S('N%dl' % n, True), S('N%dr' % n, True)
    res, ok = l, ONE
    for good, r, wide, l in reversed(out):
        res = T.select(good, r, T.select(wide, res, l))
        ok = T.select(good, ONE, T.ge0(psis(l)))
    return res, ok


def run_limit(R, e):
    """the coefficient returned for a state, an increment and bounds"""
    name = e.ns
    fn = e.fn('limit', 'Limiter')
    dim = e.dim

    def check(key, cond, rule, detail=''):
        R.count('limiter obligations')
        R.ok('%s:limit:%s' % (e.tag, key), cond, fn, rule, detail)
    mU, mP, EU, EP = names('mU', dim), names('mP', dim), S('EU'), S('EP')
    sm = S('smin', True)
    g = GAMMA
    for key, (lo, x, hi), p, t0, t1, res in regimes(name):
        modes = [{}]
        if name == 'ShallowWater':
            modes = [{'limit on kinetic energy': k, 'limit on square velocity': v} for k in (ZERO, ONE) for v in (ZERO, ONE)]
        steps = [1, 2] if name in ('Euler', 'EulerAEOS') and key == 'inside, increasing' and dim == 1 else [1]
        for mode in modes:
            for n in steps:
                lim = Lim(e, n, **mode)
                fs = []
                if name in ('Euler', 'EulerAEOS'):
                    U, P = vec(x, *mU, EU), vec(p, *mP, EP)
                    at = lambda t: vec(*[u + t * q for u, q in zip(U.e, P.e)])
                    B = [lo, hi, sm]
                    if name == 'EulerAEOS':
                        gm = ONE + S('gmin-1', True)
                        B.append(gm)

                        def F(V):
                            rho, rhoe = V[0], V[-1] - HALF * sq(V[1:-1]) / V[0]
                            c = ONE - e.b * rho
                            return rho * (rhoe - rho * e.q - e.pinf * c) - sm * T.power(rho, gm + 1) * T.power(c, ONE - gm)
                    else:
                        def F(V):
                            rho, rhoe = V[0], V[-1] - HALF * sq(V[1:-1]) / V[0]
                            return rho * rhoe - sm * T.power(rho, g + 1)
                    fs = [F]
                elif name == 'ShallowWater':
                    U, P = vec(x, *mU), vec(p, *mP)
                    at = lambda t: vec(*[u + t * q for u, q in zip(U.e, P.e)])
                    kin, v2 = S('kinmax', True), S('v2max', True)
                    B = [lo, hi, ZERO, kin, v2]

                    def f1(V):
                        return V[0] * kin - HALF * sq(V[1:])

                    def f2(V):
                        return V[0] * V[0] * v2 - sq(V[1:])
                    fs = [f for f, k in ((f1, 'limit on kinetic energy'), (f2, 'limit on square velocity')) if mode[k] == ONE]
                else:
                    U, P, B = vec(x), vec(p), [lo, hi]
                tag = key + ''.join(':' + k.split()[-1] for k, v in mode.items() if v == ONE) + (':%d steps' % n if n > 1 else '')
                if name == 'ShallowWater' and not fs:
                    tag += ':depth only'
                with T.assuming(*[ONE - S('t0', True)] * (key in ('above', 'below')), *([ONE - e.b * hi] if name == 'EulerAEOS' else [])):
                    t, good = lim.limit(B, U, P, t0, t1)
                    t, good = distinct(noeps(t)), distinct(noeps(good))
                    psi = [lambda t, f=f: f(at(t).e) for f in fs]
                    if len(psi) <= 1:
                        want, fine = nested(res, t0, n, psi[0]) if psi else (res, ONE)
                    else:
                        # two functionals after one another: the first result is the right end of the second bracket
                        want = None
                    if want is not None:
                        check(tag + ':value', t == want, 'the coefficient is the largest for which the bounds hold, up to the steps of the root search',
                              lambda: 'found %s, required %s' % (pretty(t)[:500], pretty(want)[:500]))
                    else:
                        two(e, check, tag, t, res, t0, psi, lim)
                    for k, a in enumerate(lim.log):
                        fk, Fk = (psi[k], fs[k]) if len(psi) > 1 else (psi[0], fs[0])
                        for m, side in ((0, 'left'), (1, 'right')):
                            at_, ph, dp = [noeps(v) for v in (a[m], a[2 + m], a[4 + m])]
                            # on the path that takes this step the right state is bad; there the bracket is what earlier steps left
                            names_ = bracket(k, m, res, t0, psi, lim)
                            ph2, dp2 = [pick(v, psi, k, res, t0) for v in (ph, dp)]
                            at2 = pick(at_, psi, k, res, t0)
                            check(tag + ':step%d:%s' % (k, side), at2 == names_, 'the root search starts from the current bracket',
                                  lambda: 'found %s, required %s' % (pretty(at2)[:300], pretty(names_)[:300]))
                            v1, v2_ = fk(names_), slope(e, Fk, at(names_).e, P.e)
                            check(tag + ':psi%d:%s' % (k, side), ph2 == v1, 'the function whose root is searched is the constraint along the increment',
                                  lambda: 'found %s, required %s' % (pretty(ph2)[:500], pretty(v1)[:500]))
                            check(tag + ':dpsi%d:%s' % (k, side), dp2 == v2_, 'the slope handed to the root search is the derivative of the constraint along the increment',
                                  lambda: 'found %s, required %s, difference %s' % (pretty(dp2)[:300], pretty(v2_)[:300], pretty(dp2 - v2_)[:300]))
                    if not key.startswith('outside'):
                        if len(psi) <= 1:
                            s = fine
                            check(tag + ':success', good == s, 'success is reported exactly if the state itself obeys the bounds (or the limit is not needed)',
                                  lambda: 'found %s, required %s' % (pretty(good)[:500], pretty(s)[:500]))
    violated(R, e, check)


def distinct(v):
    """the value if the ends of no bracket coincide"""
    ends = {'t0', 'w'}
    for b in T.bools(v):
        if b.name == 'eq0' and all(a.kind == 'sym' and (a.name in ends or re.match(r'N\d[lr]$', a.name)) for a in b.args[0].deep_atoms()):
            v = T.restrict(v, b, 0)
    return v


def slope(e, F, V, P):
    """derivative of the functional F in the direction of P at the state V"""
    G = [S('V%d' % k, k == 0) for k in range(len(V))]
    at = [next(iter(x.atoms())) for x in G]
    with T.assuming(*([ONE - e.b * G[0]] if e.ns == 'EulerAEOS' else [])):
        f = F(G)
        r = ZERO
        for g, p in zip(G, P):
            r = r + T.diff(f, g) * p
    return T.subst(r, dict(zip(at, V)))


def bracket(k, side, res, t0, psi, lim):
    if k == 0:
        return (t0, res)[side]
    if len(psi) > 1:
        return (t0, S('N0l', True))[side]
    return S('N%d%s' % (k - 1, 'lr'[side]), True)


def pick(v, psi, k, res, t0):
    """the value on the path on which all root searches up to the k-th are taken"""
    bs = []
    for n in range(k + 1):
        l, r = (t0, res) if n == 0 else ((t0, S('N0l', True)) if len(psi) > 1 else (S('N%dl' % (n - 1), True), S('N%dr' % (n - 1), True)))
        f = psi[n] if len(psi) > 1 else psi[0]
        bs += [(T.gt0(f(r)), 0), (T.gt0(r - l - TOL), 1)]
    return onpath(v, bs)


def onpath(v, bs):
    for c, val in bs:
        for b in T.bools(c):
            # the truth value of the atom that makes the condition what the path says
            one = T.restrict(c, b, 1)
            zero = T.restrict(c, b, 0)
            for x, w in ((one, 1), (zero, 0)):
                if x.const() is not None and x.const() == val:
                    v = T.restrict(v, b, w)
    return v


def two(e, check, tag, t, res, t0, psi, lim):
    """both functionals of the shallow water limiter"""
    f1, f2 = psi
    g1 = T.gt0(f1(res))
    w1 = T.gt0(res - t0 - TOL)
    for a in (0, 1):
        for w in ((1,) if a else (0, 1)):
            path = [(g1, a)] + ([] if a else [(w1, w)])
            if any(c.const() is not None and c.const() != val for c, val in path):
                continue
            R1 = res if a else (S('N0l', True) if w else t0)
            v = onpath(t, path)
            k = sum(1 for _ in lim.log)
            nl = S('N%dl' % (k - 1), True)
            want = T.select(T.gt0(f2(R1)), R1, T.select(T.gt0(R1 - t0 - TOL), nl, t0))
            want = onpath(want, path)
            check(tag + ':value%d%d' % (a, w), v == want, 'the coefficient of the second constraint lies between zero and that of the first',
                  lambda: 'found %s, required %s' % (pretty(v)[:500], pretty(want)[:500]))


def violated(R, e, check):
    """a state beyond the relaxed bounds is reported"""
    a, y, z = S('a', True), S('y', True), S('z', True)
    dim = e.dim
    small, large = S('relax_small', True), S('relax_large', True)
    r = ONE + large * EPS
    cut = {'Euler': S('rho_ref', True) * large * EPS, 'EulerAEOS': S('rho_ref', True) * large * EPS,
           'ShallowWater': S('h_ref', True) * large * EPS, 'ScalarConservation': ZERO}[e.ns]
    if e.ns == 'ScalarConservation':
        r = ONE + T.const(Fraction(1.0 + 10000 * 2.0 ** -52) - 1)
    for key, (lo, x, hi) in (('above', (a, r * (a + y) + cut + z, a + y)), ('below', (r * a + cut + y, a, r * a + cut + y + z))):
        U, P = [x], [S('p')]
        B = [lo, hi]
        if e.ns in ('Euler', 'EulerAEOS'):
            U += names('mU', dim) + [S('EU')]
            P += names('mP', dim) + [S('EP')]
            B += [S('smin', True)] + ([ONE + S('gmin-1', True)] if e.ns == 'EulerAEOS' else [])
        elif e.ns == 'ShallowWater':
            U += names('mU', dim)
            P += names('mP', dim)
            B += [ZERO, S('kinmax', True), S('v2max', True)]
        full = e.ns != 'ShallowWater'
        lim = Lim(e, 0, **({} if full else {'limit on kinetic energy': ZERO, 'limit on square velocity': ZERO}))
        t, good = lim.limit(B, vec(*U), vec(*P), ZERO, ONE, exact=False)
        check('report:' + key, good.is_zero(), 'a state that is outside of the relaxed bounds is reported', lambda: pretty(good)[:500])


def bar(Ui, Uj, fi, fj, c):
    """the bar state: mean minus half the flux difference contracted with the scaled stencil vector"""
    r = []
    for k in range(len(Ui)):
        r.append(HALF * (Ui[k] + Uj[k]) - HALF * (dot(fj[k], c) - dot(fi[k], c)))
    return r


def run_bounds(R, e):
    """collecting, relaxing and combining bounds"""
    name, dim = e.ns, e.dim
    kinds = KINDS[name]

    def check(key, fn, cond, rule, detail=''):
        R.count('bound obligations')
        R.ok('%s:bounds:%s' % (e.tag, key), cond, e.fn(fn, 'Limiter'), rule, detail)
    A, B = [S('A%d' % k, True) for k in range(len(kinds))], [S('B%d' % k, True) for k in range(len(kinds))]
    got = flat(Lim(e).member('combine_bounds', vec(*A), vec(*B)))
    for k, kd in enumerate(kinds):
        want = (T.vmin if kd == 'min' else T.vmax)(A[k], B[k])
        check('combine%d' % k, 'combine_bounds', len(got) == len(kinds) and got[k] == want, 'combining two sets of bounds takes the weaker of both for every functional',
              lambda: 'found %s, required %s' % (pretty(got[k])[:200], pretty(want)[:200]))
    c = names('c', dim)
    gam = ONE + S('gam_i', True)
    shift = [S('shift%d' % k) for k in range({'Euler': dim + 2, 'EulerAEOS': dim + 2, 'ShallowWater': dim + 1, 'ScalarConservation': 1}[name])]
    Ui, Uj = e.raw('_i'), e.raw('_j')
    # the increment a further neighbour makes to every bound, and the quantity whose mean the relaxation uses
    tables = {}
    variants_ = [{}]
    if name == 'Euler':
        def data(X, s):
            return euler_flux(X, S('p' + s))
        tables = {('pv', 'at(i)'): vec(S('s_i', True), S('eta_i')), ('pv', 'at(*js)'): vec(S('s_j', True), S('eta_j'))}
    elif name == 'EulerAEOS':
        def data(X, s):
            return euler_flux(X, S('p' + s))
        tables = {('pv', 'at(i)'): vec(S('p_i'), gam, S('s_i', True), S('eta_i')),
                  ('pv', 'at(*js)'): vec(S('p_j'), ONE + S('gam_j', True), S('s_j', True), S('eta_j'))}
    elif name == 'ScalarConservation':
        def data(X, s):
            return [[S('f%s_%d' % (s, k)) for k in range(dim)]]
    else:
        def data(X, s):
            return [list(row.e) for row in e.member('f', X).e]
    lim = Lim(e)
    fi, fj = data(Ui, '_i'), data(Uj, '_j')
    tens = lambda f: Arr([Arr(list(x)) for x in f])
    lim.member('reset', S('i'), Ui, tens(fi), keep=True, tables=tables)
    start = lim.bounds_now()
    big = S('dblmax', True)
    for k, kd in enumerate(kinds):
        v = start[k]
        neutral = {'min': v == big, 'max': v.is_zero() if name != 'ScalarConservation' else v == -big}[kd]
        if name == 'EulerAEOS' and k == 3:
            neutral = v == gam
        if name == 'ShallowWater' and k == 2:
            neutral = v.is_zero()
        check('reset%d' % k, 'reset', neutral, 'before the first neighbour every bound is neutral: nothing of the previous row is left', lambda: pretty(v)[:200])
    # a neighbour, starting from arbitrary bounds
    A = [S('A%d' % k, True) for k in range(len(kinds))]
    if name == 'EulerAEOS':
        A[3] = gam
    set_bounds(e, lim, A)
    if name == 'ShallowWater':
        Usi, Usj = e.raw('_si'), e.raw('_sj')
        Ub = bar(Usi.e, Usj.e, data(Usi, '_si'), data(Usj, '_sj'), c)
        args = [Uj, Usi, Usj, vec(*c), vec(*shift)]
    else:
        Ub = bar(Ui.e, Uj.e, fi, fj, c)
        args = [S('js')] + [Uj, tens(fj), vec(*c), vec(*shift)]
    Ub = vec(*[x + y for x, y in zip(Ub, shift)])
    lim.member('accumulate', *args, keep=True, tables=tables)
    now = lim.bounds_now()
    strict = S('strict') if False else T.boolsym('strict')
    if name == 'Euler':
        new = [[Ub.e[0]], [Ub.e[0]], [S('s_j', True)]]
    elif name == 'EulerAEOS':
        sur = lambda X: e.member('surrogate_specific_entropy', X, gam)
        sb = sur(Ub)
        new = [[Ub.e[0]], [Ub.e[0]], [sb, T.select(strict, sur(Uj), S('s_j', True))], []]
    elif name == 'ScalarConservation':
        new = [[Ub.e[0]], [Ub.e[0]]]
    else:
        m = mollified(e, Ub)
        new = [[Ub.e[0]], [Ub.e[0]], None, [e.member('kinetic_energy', Ub)], [sq([q * m for q in Ub.e[1:]])]]
    for k, kd in enumerate(kinds):
        if new[k] is None:
            continue
        f = T.vmin if kd == 'min' else T.vmax
        want = A[k]
        for x in new[k]:
            want = f(want, x)
        check('accumulate%d' % k, 'accumulate', same(now[k], want), 'a neighbour widens the bound to the functional of the bar state and to nothing else',
              lambda: 'found %s, required %s' % (pretty(now[k])[:300], pretty(want)[:300]))
    # relaxation
    n = ONE
    if name != 'EulerAEOS':
        n = n + 1
        lim.member('accumulate', *args, keep=True, tables=tables)
    set_bounds(e, lim, A)
    hd = S('hd', True)
    got = flat(lim.member('bounds', hd, tables=tables))
    r = RELAX * T.power(hd, T.const(Fraction(3, 2 * dim)))
    two_ = T.const(2)
    mean = lambda f: T.absval(n * (f(Ui) + f(Uj))) / (n + EPS)
    lower = lambda A, d: T.vmax((ONE - r) * A, A - d)
    upper = lambda A, d: T.vmin((ONE + r) * A, A + d)
    if name in ('Euler', 'EulerAEOS'):
        d = two_ * RELAX * mean(lambda X: X.e[0])
        half = vec(*[HALF * (x + y) for x, y in zip(Ui.e, Uj.e)])
        if name == 'Euler':
            si = T.vmax(ZERO, e.member('specific_entropy', half))
        else:
            si = T.vmax(ZERO, T.select(strict, sur(half), sb))
        want = [lower(A[0], d), upper(A[1], d), lower(A[2], RELAX * (si - A[2]))]
        if name == 'EulerAEOS':
            up = want[1]
            want[1] = T.vmin(up, (gam + 1) * up / (gam - 1 + two_ * e.b * up))
            want.append(gam)
    elif name == 'ScalarConservation':
        d = two_ * mean(lambda X: X.e[0])
        want = [T.vmax(T.vmin((ONE - r) * A[0], (ONE + r) * A[0]), A[0] - d), T.vmin(T.vmax((ONE + r) * A[1], (ONE - r) * A[1]), A[1] + d)]
    else:
        d = two_ * mean(lambda X: X.e[0])
        kin = two_ * mean(lambda X: e.member('kinetic_energy', X))
        small = S('h_ref', True) * S('relax_factor', True) * (T.power(hd, T.const(Fraction(1, dim))) if dim < 3 else hd)
        want = [lower(A[0], d), upper(A[1], d), small if dim < 3 else None, upper(A[3], kin), None]
        # the square velocity: between the bound itself and its relative relaxation, whatever weight is used
        g = got[4]
        check('relax4:bounded', 'bounds', at_most(g, (ONE + r) * A[4]), 'the relaxed bound exceeds the bound by at most the relative relaxation',
              lambda: pretty(g)[:300])
    for k, w in enumerate(want):
        if w is not None:
            st = [b for b in T.bools(strict)]
            pick_ = lambda v: [T.restrict(v, st[0], x) for x in (0, 1)] if name == 'EulerAEOS' else [v]
            check('relax%d' % k, 'bounds', all(same(x, y) for x, y in zip(pick_(got[k]), pick_(w))), 'the relaxation widens a bound by no more than r = factor*(m_i/|D|)^(3/2d) relatively and the mean variation absolutely',
                  lambda: 'found %s, required %s' % (pretty(got[k])[:300], pretty(w)[:300]))


def euler_flux(X, p):
    X = X.e
    dim = len(X) - 2
    r = [list(X[1:-1])]
    for i in range(dim):
        r.append([X[1 + i] * X[1 + k] / X[0] + (p if i == k else ZERO) for k in range(dim)])
    return r + [[X[1 + k] / X[0] * (X[-1] + p) for k in range(dim)]]


def mollified(e, X):
    return e.member('inverse_water_depth_mollified', X)


def at_most(v, bound):
    """v is the minimum of the bound and something"""
    return T.vmin(v, bound) == v


def set_bounds(e, lim, A):
    I = e.I
    lv = I.follow((lim.this[0], lim.this[1] + (('f', 'bounds_'),)))
    I.write(lv, Arr(list(A), getattr(I.read(lv, ''), 't', None)))


def run(R):
    preload()
    R.rule('Every limiter is executed abstractly for symbolic bounds, states and increments in each regime of the first bounded functional; the coefficient it returns, the constraint and the slope '
           'handed to the root search (compared with symbolic differentiation), the reported success, and the combination of bounds are compared as normal forms for exact arithmetic.')
    R.assume('machine epsilon is set to zero after the regimes are resolved; the root search itself is decided in A12')
    import os
    dbg = os.environ.get('A10DBG', '').split()
    cases = [(C, d, v) for C, _ in ALL for d, v in variants() if not dbg or (C.__name__ in dbg and d == int(os.environ.get('A10DIM', '1')) and not v)]

    def one(run_, c):
        C, d, v = c
        e = get(C, d, v)
        run_limit(run_, e)
        run_bounds(run_, e)
    R.each(cases, one)
    R.floor('limiter obligations', 500)
    R.floor('bound obligations', 60)
