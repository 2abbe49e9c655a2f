"""A05: thermodynamic quantities, entropies and their derivatives"""
from eqs import *


def gradient(f, U):
    """gradient with respect to the symbolic conserved variables"""
    return vec(*[T.diff(f, next(iter(x.atoms()))) for x in U.e])


def put(v, mp):
    if isinstance(v, Arr):
        return Arr([put(x, mp) for x in v.e], v.t)
    return T.subst(v, mp)


def at(x):
    return next(iter(x.atoms()))


def run(R):
    preload()
    R.rule('Every thermodynamic member function is summarised as an algebraic normal form and compared with its '
           'definition in primitive variables; every entropy derivative is compared with the gradient obtained by '
           'symbolic differentiation of the summary of the entropy it belongs to; what the precomputation stores is '
           'compared with the quantities the limiter and the indicator expect.')

    for C, name in ALL:
        for dim, v in variants():
            e = get(C, dim, v)

            def check(key, fn, got, want, text):
                R.count('thermodynamic identities')
                R.ok('%s:%s' % (e.tag, key), same(got, want), e.fn(fn), text, lambda: first_difference(got, want))
            if C is Euler:
                rho, u, p, U = e.state()
                W = e.raw()
                mp = {at(a): b for a, b in zip(W.e[1:], U.e[1:])}
                m = lambda n, *a: e.member(n, *a)
                rhoe = p / GM1
                check('density', 'density', m('density', W), W.e[0], 'density')
                check('momentum', 'momentum', m('momentum', W), vec(*W.e[1:1 + dim]), 'momentum')
                check('total_energy', 'total_energy', m('total_energy', W), W.e[-1], 'total energy')
                check('pressure', 'pressure', m('pressure', U), p, 'pressure of the ideal gas')
                check('internal_energy', 'internal_energy', m('internal_energy', U), rhoe, 'internal energy = E - m^2/(2 rho)')
                check('speed_of_sound', 'speed_of_sound', m('speed_of_sound', U), T.sqrt(GAMMA * p / rho), 'a^2 = gamma p / rho')
                check('specific_entropy', 'specific_entropy', m('specific_entropy', U), rhoe * T.power(rho, -GAMMA),
                      'specific entropy = rho e / rho^gamma')
                harten = T.power(rho * rhoe, T.inv(GAMMA + 1))
                check('harten', 'harten_entropy', m('harten_entropy', U), harten, 'Harten entropy = (rho^2 e)^(1/(gamma+1))')
                check('math', 'mathematical_entropy', m('mathematical_entropy', U), T.power(p, T.inv(GAMMA)),
                      'mathematical entropy = p^(1/gamma)')
                for f in ('internal_energy', 'harten_entropy', 'mathematical_entropy'):
                    g = put(gradient(m(f, W), W), mp)
                    check("%s'" % f, f + '_derivative', m(f + '_derivative', U), g, 'the derivative is the gradient')
                pre, _ = e.produced(U)
                check('table', 'precomputation_loop', vec(*pre.e[:2]), vec(rhoe * T.power(rho, -GAMMA), harten),
                      'the tables hold the specific entropy and the Harten entropy')
            elif C is EulerAEOS:
                W = e.raw()
                rho = W.e[0]
                u = names('u_', dim)
                S_, x, q, pinf, gam = S('shift', True), S('covolume', True), S('eos.interpolation_q'), \
                    S('eos.interpolation_pinfty'), S('gam')
                gm1 = S('gam-1', True)
                gam = ONE + gm1
                rhoe = S_ + rho * q + pinf * x
                b = (ONE - x) / rho
                mp = {at(a): rho * y for a, y in zip(W.e[1:], u)}
                mp[at(W.e[-1])] = rhoe + HALF * rho * sq(u)
                mb = {at(S('eos.interpolation_b')): b}
                U = put(W, mp)

                def m(n, *a):
                    return put(put(e.member(n, W, *a), mp), mb)
                check('density', 'density', e.member('density', W), W.e[0], 'density')
                check('momentum', 'momentum', e.member('momentum', W), vec(*W.e[1:1 + dim]), 'momentum')
                check('total_energy', 'total_energy', e.member('total_energy', W), W.e[-1], 'total energy')
                check('internal_energy', 'internal_energy', m('internal_energy'), rhoe, 'internal energy = E - m^2/(2 rho)')
                P = S('P')
                check('gamma', 'surrogate_gamma', m('surrogate_gamma', P), ONE + (P + pinf) * x / S_,
                      'surrogate gamma of the NASG interpolation')
                back = put(put(e.member('surrogate_pressure', W, e.member('surrogate_gamma', W, P)), mp), mb)
                check('gamma-inverse', 'surrogate_pressure', back, P, 'surrogate pressure at the surrogate gamma is the pressure')
                check('pressure', 'surrogate_pressure', m('surrogate_pressure', gam),
                      gm1 * (rhoe - rho * q) / x - gam * pinf, 'NASG pressure law')
                check('entropy', 'surrogate_specific_entropy', m('surrogate_specific_entropy', gam),
                      S_ / x * T.power(x / rho, gam), 's = shift (1/rho - b)^gamma / (1 - b rho)')
                eta = T.power(rho * S_ * T.power(x, gm1), T.inv(gam + 1))
                check('harten', 'surrogate_harten_entropy', m('surrogate_harten_entropy', gam), eta,
                      'eta = (rho shift (1-b rho)^(gamma-1))^(1/(gamma+1))')
                raw_eta = e.member('surrogate_harten_entropy', W, gam)
                g = put(put(gradient(raw_eta, W), mp), mb)
                check("harten'", 'surrogate_harten_entropy_derivative', m('surrogate_harten_entropy_derivative', raw_eta, gam), g,
                      'the derivative is the gradient at fixed gamma')
                g = put(gradient(e.member('internal_energy', W), W), mp)
                check("internal_energy'", 'internal_energy_derivative', m('internal_energy_derivative'), g,
                      'the derivative is the gradient')
                # tables: p, then minimum of gamma over the stencil, entropies at that gamma
                nb = (e.raw('nb'), vec(S('p_nb'), S('gam_nb'), S('s_nb'), S('eta_nb')))
                pre, info = e.produced(W, nb)
                one, _ = e.produced(W, nb, upto=1)
                pi = T.app('eos.pressure', rho, e.member('internal_energy', W) / rho)
                gi = e.member('surrogate_gamma', W, pi)
                check('table1', 'precomputation_loop', vec(*one.e[:2]), vec(pi, gi),
                      'the first cycle stores the pressure of the equation of state and the surrogate gamma of the row')
                gj = e.member('surrogate_gamma', nb[0], nb[1].e[0])
                loops = info[-1][4]
                gm = pre.e[1]
                ok = is_stencil_min(gm, gi, gj)
                R.count('thermodynamic identities')
                R.ok('%s:table gamma' % e.tag, ok, e.fn('precomputation_loop'),
                     'the second cycle stores the minimum of the surrogate gamma over the whole stencil', lambda: pretty(gm)[:600])
                check('table2', 'precomputation_loop', pre,
                      vec(pi, gm, e.member('surrogate_specific_entropy', W, gm), e.member('surrogate_harten_entropy', W, gm)),
                      'the entropies are those of the row at the stencil minimum of gamma')
            elif C is ShallowWater:
                h, u, U = e.state()
                with T.assuming(h - e.cut_small, h - e.cut_large):
                    m = lambda n, *a: e.member(n, *a)
                    check('depth', 'water_depth', m('water_depth', e.raw()), e.raw().e[0], 'water depth')
                    check('momentum', 'momentum', m('momentum', e.raw()), vec(*e.raw().e[1:]), 'momentum')
                    check('pressure', 'pressure', m('pressure', U), HALF * G * h * h, 'pressure = g h^2 / 2')
                    check('speed', 'speed_of_sound', m('speed_of_sound', U), T.sqrt(G * h), 'a^2 = g h')
                    check('kinetic', 'kinetic_energy', m('kinetic_energy', U), HALF * h * sq(u), 'kinetic energy = h |v|^2 / 2')
                    check('entropy', 'mathematical_entropy', m('mathematical_entropy', U), HALF * G * h * h + HALF * h * sq(u),
                          'entropy = g h^2/2 + h |v|^2/2')
                    W = e.raw()
                    mp = {at(a): b for a, b in zip(W.e[1:], U.e[1:])}
                    g = put(gradient(m('mathematical_entropy', W), W), mp)
                    check("entropy'", 'mathematical_entropy_derivative', m('mathematical_entropy_derivative', U), g,
                          'the derivative is the gradient')
                    for n in ('inverse_water_depth_sharp', 'inverse_water_depth_mollified'):
                        check(n, n, m(n, U), T.inv(h), 'the inverse depth of a wet state')
                    check('sharp', 'water_depth_sharp', m('water_depth_sharp', U), h, 'the sharp depth of a wet state')
                    pre, _ = e.produced(U)
                    check('table', 'precomputation_loop', vec(*pre.e[:2]),
                          vec(HALF * G * h * h + HALF * h * sq(u), T.power(h, T.const(T.Fraction(4, 3)))),
                          'the tables hold the entropy and h^(4/3)')
                # dry states: regularisation stays finite and non-negative
                W = e.raw()
                check('dry mollified', 'inverse_water_depth_mollified',
                      e.member('inverse_water_depth_mollified', vec(ZERO, *W.e[1:])), ZERO, 'zero depth has inverse zero')
                hs = S('h')
                check('dry sharp', 'inverse_water_depth_sharp', e.member('inverse_water_depth_sharp', vec(hs, *W.e[1:])),
                      T.inv(T.vmax(hs, e.cut_small)), 'the inverse depth is bounded by the reciprocal cut-off')
                mx = T.vmax(hs, e.cut_large)
                check('mollified', 'inverse_water_depth_mollified',
                      e.member('inverse_water_depth_mollified', vec(hs, *W.e[1:])),
                      2 * T.vmax(hs, ZERO) / (hs * hs + mx * mx), 'mollified inverse depth 2 h+ / (h^2 + max(h, cut)^2)')
            else:
                uu, k = S('u'), S('k')
                for en, d, args in (('square_entropy', 'square_entropy_derivative', [uu]),):
                    f = e.member(en, *args)
                    check(en, en, f, HALF * uu * uu, 'u^2/2')
                    check(d, d, e.member(d, *args), T.diff(f, at(uu)), 'the derivative is the gradient')
                check('kruzkov', 'kruzkov_entropy', e.member('kruzkov_entropy', k, uu), T.absval(k - uu), '|k - u|')
                # derivative of |k-u|: +1 for u > k, -1 for u < k
                for s, want in ((1, ONE), (-1, -ONE)):
                    with T.assuming((uu - k) * s):
                        check('kruzkov%d' % s, 'kruzkov_entropy_derivative', e.member('kruzkov_entropy_derivative', k, uu), want,
                              'the sign of u - k')
    R.floor('thermodynamic identities', 250)


def is_stencil_min(gm, gi, gj):
    """min(gi, min over the columns of gj): -max(-gi, maxover(loop, -gj))"""
    t = (-gm).tag
    if not t or t[0] != 'max' or len(t[1]) != 2:
        return False
    rest = [x for x in t[1] if x != -gi]
    if len(rest) != 1 or len(rest[0].t) != 1:
        return False
    a = next(iter(rest[0].atoms()))
    if rest[0] != T.atom_value(a) or a.name != 'maxover':
        return False
    loop, body = a.args
    return isinstance(body, Value) and body == -gj
