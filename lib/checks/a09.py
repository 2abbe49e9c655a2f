"""A09: wave-speed estimates of the systems of equations"""
from fractions import Fraction
from eqs import *
from interp import limit_const

L = T.lift
TWO = L(2)


def pos(x):
    return T.vmax(x, ZERO)


def neg(x):
    return T.vmax(-x, ZERO)


def unit(dim):
    """all unit vectors but one, rationally parametrised"""
    if dim == 1:
        return [('', [ONE]), ('-', [-ONE])]
    s, t = S('s'), S('t')
    if dim == 2:
        q = T.inv(ONE + s * s)
        return [('', [(ONE - s * s) * q, 2 * s * q])]
    q = T.inv(ONE + s * s + t * t)
    return [('', [2 * s * q, 2 * t * q, (ONE - s * s - t * t) * q])]


def sel(c, a, b):
    return T.select(c, a, b)


class naming:
    """stage-wise value numbering: while active, a value of the analysed
    program with one of these value numbers is denoted by the given (symbolic) value"""

    def __init__(self, e, *pairs):
        self.I = e.I
        self.new = {v.fp: w for v, w in pairs}

    def __enter__(self):
        self.old = self.I.naming
        self.I.naming = dict(self.old or {})
        self.I.naming.update(self.new)

    def __exit__(self, *a):
        self.I.naming = self.old


def speed(g, pinf, ri, ui, pi, ai, rj, uj, pj, aj):
    f = [(x + ONE) / (2 * x) for x in g]

    def lam(ps):
        l1 = ui - ai * T.sqrt(ONE + f[0] * pos((ps - pi) / (pi + pinf)))
        l3 = uj + aj * T.sqrt(ONE + f[1] * pos((ps - pj) / (pj + pinf)))
        return T.vmax(pos(l3), neg(l1))
    return lam


def equal(R, e, key, fn, got, want, rule):
    R.count('speed identities')
    good = isinstance(got, Value) and (got - want).is_zero()
    R.ok('%s:%s' % (e.tag, key), good, fn, rule,
         lambda: 'found %s, required %s' % (pretty(got)[:700], pretty(want)[:700]))
    return good


def solver(e, **pars):
    ns = e.ns
    par = e.M.configure('ryujin::%s::RiemannSolverParameters<double>' % ns, params=pars)
    return e.M.construct(e.cls('RiemannSolver'), [e.system, par, Opaque('pv')])


def compute_fn(e):
    return e.P.one(re.escape(e.cls('RiemannSolver') + '::compute'), lambda f: len(f['params']) == 5)


def pressures():
    """the orderings of the two pressures"""
    pi, pj = S('pi', True), S('pj', True)
    return [('i>j', pi, pj, pi - pj), ('i<j', pi, pj, pj - pi)]


def euler(R, dim, vect):
    e = get(Euler, dim, vect)
    rs = solver(e, **{'newton max iterations': ZERO})
    fn = compute_fn(e)
    g = GAMMA
    rho = [S('rho_i', True), S('rho_j', True)]
    u = [names('u_i', dim), names('u_j', dim)]
    for lab, n in unit(dim):
        un = [dot(x, n) for x in u]
        for order, pi, pj, asm0 in pressures():
            with T.assuming(asm0):
                p = [pi, pj]
                a = [T.sqrt(g * p[k] / rho[k]) for k in (0, 1)]
                data = (rho[0], un[0], p[0], a[0], rho[1], un[1], p[1], a[1])
                lam = speed([g, g], ZERO, *data)
                (ri, ui, pi, ai, rj, uj, pj, aj) = data
                pm = T.vmax(pi, pj)
                den = lambda r, p: r * ((g + ONE) * pm + (g - ONE) * p)
                phi = (pm - pi) / T.sqrt(HALF * den(ri, pi)) + (pm - pj) / T.sqrt(HALF * den(rj, pj)) + uj - ui
                h = (g - ONE) / 2
                q = ai + aj - h * (uj - ui)
                rare = lambda: pj * T.power(pos(q) / (ai * T.power(pi / pj, -h / g) + aj), 2 * g / (g - ONE))
                xi, xj = T.sqrt(2 * pm / den(ri, pi)), T.sqrt(2 * pm / den(rj, pj))
                qa, qb, qc = xi + xj, uj - ui, -pi * xi - pj * xj
                base = (-qb + T.sqrt(qb * qb - 4 * qa * qc)) / (2 * qa)
                Ui, Uj = [e.cons(rho[k], u[k], p[k]) for k in (0, 1)]
                args = [rs, Ui, Uj, S('i'), S('js'), vec(*n)]

                def expect(neg_phi, rare, shock):
                    t = T.vmin(rare, shock)
                    return t if neg_phi else T.vmin(pm, t)
                for vac, asm in (('', q), (' vacuum', -q)):
                    with T.assuming(asm):
                        regimes(R, e, order + lab + vac, fn, args, phi, {'rare': rare(), 'shock': base * base}, pi, pj, lam, expect)


def regimes(R, e, key, fn, args, phi, stars, pi, pj, lam, expect, floor=ZERO, relevant=None, also=()):
    """the sign of phi(p_max), the order of the candidates, and their order relative to both pressures"""
    pl, pm = T.vmin(pi, pj), T.vmax(pi, pj)
    y, z, w = S('y', True), S('z', True), S('w', True)
    void = [n for n in stars if stars[n] == floor]
    for sg in (-1, 1):
        ph = S('phi')
        rel = [n for n in (relevant[sg] if relevant else stars) if n not in void]
        for least in rel or [None]:
            for where, t, asm in (('above', pm + y, []), ('between', pl + y, [pm - pl - y]), ('below', floor + y, [pl - floor - y])):
                val = {n: floor if n in void else t if n == least else t + z if n in rel else floor + w for n in stars}
                named = [(phi, ph)] + [(stars[n], val[n]) for n in stars if n not in void] + list(also)
                with T.assuming(ph * sg, *asm), naming(e, *named):
                    got = e.M.run(e.pfn('riemann'), args)
                    want = lam(expect(sg < 0, **val))
                    equal(R, e, '%s phi%s0 %s %s' % (key, '<' if sg < 0 else '>', least, where), fn, got, want,
                          'the estimate is the maximal extreme speed at the documented upper pressure bound')
                if least is None:
                    break


def aeos(R, dim, vect, strict):
    e = get(EulerAEOS, dim, vect, strict=strict)
    rs = solver(e)
    fn = compute_fn(e)
    b, w = e.b, e.pinf
    slope = limit_const(repr(-0.34976871477801828189920953948709))
    rho = [S('rho_i', True), S('rho_j', True)]
    u = [names('u_i', dim), names('u_j', dim)]
    x = [ONE - b * r for r in rho]
    P = [S('P_i', True), S('P_j', True)]       # pressure above the floor of the equation of state
    g = [ONE + S('g_i', True), ONE + S('g_j', True)]
    p = [k - w for k in P]
    pi, pj = p
    # the energy for which the surrogate exponent is g
    U = [vec(rho[k], *[rho[k] * c for c in u[k]],
             rho[k] * e.q + (P[k] / (g[k] - ONE) + w) * x[k] + HALF * rho[k] * sq(u[k])) for k in (0, 1)]
    a = [T.sqrt(g[k] * P[k] / (rho[k] * x[k])) for k in (0, 1)]
    c = []
    for k in (0, 1):
        r = T.vmin((3 * g[k] + 11) / (6 * g[k] + 6), T.const(Fraction(5, 6)) + slope * (g[k] - 3), ONE)
        c.append(T.sqrt(T.vmax(HALF, r)))
    cs = [S('c_i', True), S('c_j', True)]
    alpha = [2 * a[k] * x[k] / (g[k] - ONE) for k in (0, 1)]
    als = [S('alpha_i', True), S('alpha_j', True)]
    also = [(c[k], cs[k]) for k in (0, 1)] + [(alpha[k], als[k]) for k in (0, 1)] + [(g[k], g[k]) for k in (0, 1)]
    alpha = als
    hat = [cs[k] * alpha[k] for k in (0, 1)]
    for lab, n in unit(dim):
        un = [dot(v, n) for v in u]
        du = un[1] - un[0]
        for lo, plab in ((1, 'i>j'), (0, 'i<j')):
            hi = 1 - lo
            for gm, glab in ((0, 'gi<gj'), (1, 'gi>gj')):
                gM = 1 - gm
                with T.assuming(P[hi] - P[lo], g[gM] - g[gm], x[0], x[1]):
                    lam = speed(g, w, rho[0], un[0], p[0], a[0], rho[1], un[1], p[1], a[1])
                    den = lambda k: rho[k] / x[k] * ((g[k] + ONE) * P[hi] + (g[k] - ONE) * P[k])
                    phi = (P[hi] - P[lo]) / T.sqrt(HALF * den(lo)) + du
                    ratio = P[lo] / P[hi]
                    re_ = (g[gM] - g[lo]) / (2 * g[lo] * g[gM])
                    ex = lambda k: (g[k] - ONE) / (2 * g[k])
                    q1 = hat[lo] + alpha[hi] - du
                    q2 = hat[0] + hat[1] - du

                    def star(q, d, k, f):
                        return f * T.power(pos(q) / d, T.inv(ex(k))) - w
                    xs = [T.sqrt(2 * P[hi] / den(k)) for k in (0, 1)]
                    qa, qb, qc = xs[0] + xs[1], du, -P[0] * xs[0] - P[1] * xs[1]
                    base = (-qb + T.sqrt(qb * qb - 4 * qa * qc)) / (2 * qa)
                    pw = lambda z: T.power(ratio, z)
                    args = [rs, U[0], U[1], S('i'), S('js'), vec(*n)]
                    tables = {('pv', 'at(i)'): vec(p[0], *names('oi', 3)), ('pv', 'at(*js)'): vec(p[1], *names('oj', 3))}
                    for vac, asm in (('', (q1, q2)), (' vacuum', (-q1, -q2))):
                        with T.assuming(*asm):
                            shock = base * base - w
                            if strict:
                                stars = {'rs1': star(q1, hat[lo] * pw(re_ - ex(gM)) + alpha[hi], gM, P[hi]),
                                         'rs2': star(q1, hat[lo] * pw(-ex(gm)) + alpha[hi] * pw(re_), gm, P[hi]),
                                         'ss1': star(q2, hat[0] * T.power(P[0] / P[1], -ex(gm)) + hat[1], gm, P[1]),
                                         'shock': shock}
                                rel = {-1: ('ss1', 'shock'), 1: ('rs1', 'rs2')}

                                def expect(neg_phi, rs1, rs2, ss1, shock):
                                    return T.vmin(ss1, shock) if neg_phi else T.vmin(p[hi], rs1, rs2)
                            else:
                                stars = {'inter': star(q1, hat[lo] * pw(-ex(gm)) + hat[hi] * pw(re_), gm, P[hi]), 'shock': shock}
                                rel = {-1: ('inter', 'shock'), 1: ('inter',)}

                                def expect(neg_phi, inter, shock):
                                    return T.vmin(inter, shock) if neg_phi else T.vmin(p[hi], inter)
                            e.with_tables(tables, lambda: regimes(
                                R, e, 'strict ' * strict + plab + ' ' + glab + lab + vac, fn, args, phi, stars, pi, pj, lam, expect,
                                floor=-w, relevant=rel, also=also))


def shallow(R, dim, vect):
    e = get(ShallowWater, dim, vect)
    rs = solver(e)
    fn = compute_fn(e)
    h = [S('h_i', True), S('h_j', True)]
    u = [names('u_i', dim), names('u_j', dim)]
    r2 = T.sqrt(TWO)
    x0 = 9 - 4 * r2
    U = [vec(h[k], *[h[k] * c for c in u[k]]) for k in (0, 1)]
    a = [T.sqrt(G * x) for x in h]

    def lam(hs):
        def side(k):
            f = pos((hs - h[k]) / h[k])
            return a[k] * T.sqrt((ONE + HALF * f) * (ONE + f))
        return T.vmax(pos(un[1] + side(1)), neg(un[0] - side(0)))

    def f(k, x):
        return T.select(T.ge0(h[k] - x), 2 * (T.sqrt(G * x) - a[k]), (x - h[k]) * T.sqrt(HALF * G * (x + h[k]) / (x * h[k])))
    y = S('y', True)
    for lab, n in unit(dim):
        un = [dot(v, n) for v in u]
        du = un[0] - un[1]
        args = [rs, U[0], U[1], S('i'), S('js'), vec(*n)]
        for lo, plab in ((1, 'hi>hj'), (0, 'hi<hj')):
            hi = 1 - lo
            with T.assuming(h[hi] - h[lo], (x0 - 1) * h[hi], (x0 - 1) * h[lo], h[lo] - e.cut_small, h[hi] - e.cut_small,
                            h[lo] - e.cut_large, h[hi] - e.cut_large):
                phi = [f(0, x0 * h[k]) + f(1, x0 * h[k]) - du for k in (lo, hi)]
                mid = T.sqrt(h[lo] * h[hi]) * (ONE + r2 * du / (a[lo] + a[hi]))
                rad = 3 * h[lo] + 2 * r2 * T.sqrt(h[lo] * h[hi]) + r2 * T.sqrt(h[lo] / G) * du
                right = lambda: T.power(T.sqrt(pos(rad)) - r2 * T.sqrt(h[lo]), TWO)
                lrad = du + 2 * (a[0] + a[1])
                left = lambda: T.power(pos(lrad), TWO) / (16 * G)
                for rlab, asm in (('', (rad, lrad)), (' vacuum', (-rad, -lrad))):
                    for s0, s1, which in ((-1, -1, 'mid'), (-1, 1, 'right'), (1, 1, 'left')):
                        for where, t, asm2 in (('above', h[hi] + y, []), ('between', h[lo] + y, [h[hi] - h[lo] - y]),
                                               ('below', y, [h[lo] - y])):
                            with T.assuming(*asm):
                                val = {'mid': mid, 'right': right(), 'left': left()}
                            p0, p1 = S('phi_0'), S('phi_1')
                            other = S('other', True)
                            alts = [which] if which != 'left' else ['left', 'right']
                            with T.assuming(*asm, *asm2, p0 * s0, p1 * s1):
                                named = [(phi[0], p0), (phi[1], p1)]
                                named += [(v, t if k in alts else other) for k, v in val.items()
                                          if not v.is_zero() and not (k == 'right' and rlab)]
                                res = {k: val[k] if val[k].is_zero() or (k == 'right' and rlab) else t for k in alts}
                                with naming(e, *named):
                                    got = e.M.run(e.pfn('riemann'), args)
                                    wants = [lam(v) for v in res.values()]
                                    R.count('speed identities')
                                    R.ok('%s:%s%s%s %s %s' % (e.tag, plab, lab, rlab, which, where),
                                         isinstance(got, Value) and any((got - w).is_zero() for w in wants), fn,
                                         'the estimate is the maximal extreme speed at the documented upper depth bound',
                                         lambda: 'found %s, required %s' % (pretty(got)[:700], pretty(wants[0])[:700]))


def run(R):
    preload()
    R.rule('The wave-speed estimate is summarised over arbitrary pairs of admissible states and unit vectors, in every order of the '
           'two pressures, and compared with the published formulas of the estimate.')
    for dim, vect in variants():
        euler(R, dim, vect)
        for strict in (False, True):
            aeos(R, dim, vect, strict)
        shallow(R, dim, vect)
    R.floor('speed identities', 1400)
