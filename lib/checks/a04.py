"""A04: lake at rest"""
from eqs import *


def run(R):
    preload()
    R.rule('States at rest with equal free surface h_i + Z_i = h_j + Z_j are substituted into the summaries of the '
           'fluxes, the equilibrated states and the source; every dependence on the neighbour must disappear, so that '
           'the row sum over c_ij (which is zero) vanishes.')
    for dim, v in variants():
        e = get(ShallowWater, dim, v)
        c = names('c', dim)
        zero = [ZERO] * dim

        def check(key, fn, got, want, text):
            R.count('rest states')
            R.ok('%s:%s' % (e.tag, key), same(got, want), e.fn(fn), text, lambda: first_difference(got, want))
        # two wet states: h_i = w - Z_i; either bottom may be the higher one
        for case in ('i higher', 'j higher'):
            hi, d = S('hi', True), S('d', True)
            Zi = S('Zi')
            if case == 'i higher':      # Z_i = Z_j + d,  h_j = h_i + d
                hj, Zj = hi + d, Zi - d
                star = hi
            else:                       # Z_j = Z_i + d,  h_i = h_j + d
                hj, Zj = hi, Zi + d
                hi, star = hi + d, hi
            Ui, Uj = vec(hi, *zero), vec(hj, *zero)
            kw = dict(zi=vec(Zi), zj=vec(Zj))
            with T.assuming(star - e.cut_small, star - e.cut_large):
                want = vec(ZERO, *[-G * hi * hi * x for x in c])
                check('low ' + case, 'flux_divergence', e.interface(Ui, Uj, vec(*c), **kw), want,
                      'the flux depends on row i only: -g h_i^2 c_ij')
                check('high ' + case, 'high_order_flux_divergence', e.interface(Ui, Uj, vec(*c), high=True, **kw), want,
                      'the high-order flux depends on row i only: -g h_i^2 c_ij')
                st = e.interface(Ui, Uj, None, name='star', **kw)
                check('star ' + case, 'equilibrated_states', st, Arr([vec(star, *zero)] * 2),
                      'both equilibrated states coincide (the graph viscosity sees no jump)')
        # a dry island next to a wet state
        hi, d = S('hi', True), S('d', True)
        Zi = S('Zi')
        Zj = Zi + hi + d
        with T.assuming(hi - e.cut_small, hi - e.cut_large):
            Ui, Uj = vec(hi, *zero), vec(ZERO, *zero)
            check('shore wet side', 'flux_divergence', e.interface(Ui, Uj, vec(*c), zi=vec(Zi), zj=vec(Zj)),
                  vec(ZERO, *[-G * hi * hi * x for x in c]), 'a wet row does not feel a dry island')
            check('shore dry side', 'flux_divergence', e.interface(Uj, Ui, vec(*c), zi=vec(Zj), zj=vec(Zi)),
                  vec(*[ZERO] * (dim + 1)), 'a dry row does not feel the wet neighbour')
            check('shore star', 'equilibrated_states',
                  e.interface(Ui, Uj, None, name='star', zi=vec(Zi), zj=vec(Zj)),
                  Arr([vec(*[ZERO] * (dim + 1))] * 2), 'both equilibrated states are empty')
        # flat ground: reconstruction is the identity, no shift
        h, u, U = e.state('i')
        h2, u2, U2 = e.state('j')
        Z = vec(S('Z'))
        with T.assuming(*[x - y for x in (h, h2) for y in (e.cut_small, e.cut_large)]):
            check('flat star', 'equilibrated_states', e.interface(U, U2, None, name='star', zi=Z, zj=Z), Arr([U, U2]),
                  'on flat ground the equilibrated states are the states')
            check('flat shift', 'affine_shift', e.interface(U, U2, vec(*c), zi=Z, zj=Z, name='shift', extra=[S('d_ij', True)]),
                  vec(*[ZERO] * (dim + 1)), 'on flat ground there is no affine shift')
            Zi, Zj = S('Zi'), S('Zj')
            H = T.vmax(ZERO, h + Zi - T.vmax(Zi, Zj))
            fac = (S('d_ij', True) + dot(u, c)) * 2
            check('shift', 'affine_shift',
                  e.interface(U, U2, vec(*c), zi=vec(Zi), zj=vec(Zj), name='shift', extra=[S('d_ij', True)]),
                  vec(*[-fac * x * (H / h - ONE) for x in U.e]),
                  'the affine shift is -2 (d_ij + v_i.c_ij) (U*_ij - U_i)')
    R.floor('rest states', 70)
