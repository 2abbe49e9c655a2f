"""A03: interface fluxes cancel pairwise"""
from eqs import *


def run(R):
    preload()
    R.rule('For arbitrary states U_i, U_j, table entries and c_ij = -c_ji the contribution of column j to row i plus '
           'that of column i to row j is the zero polynomial (shallow water: mass over arbitrary ground, all components '
           'over flat ground in the wet regime).')
    for C, name in ALL:
        for dim, v in variants():
            e = get(C, dim, v)
            c = names('c', dim)
            c1, c2 = vec(*c), vec(*[-x for x in c])
            npre = e.static('n_precomputed_values')
            pi, pj = vec(*[S('pre_i%d' % k) for k in range(npre)]), vec(*[S('pre_j%d' % k) for k in range(npre)])
            sw = C is ShallowWater
            Ui, Uj = (e.state('i')[-1], e.state('j')[-1]) if sw else (e.raw('i'), e.raw('j'))
            for high in (False, True):
                w = e.fn('high_order_flux_divergence') if high and sw else e.fn('flux_divergence')

                def total(zi, zj):
                    a = e.interface(Ui, Uj, c1, pi, pj, zi, zj, high=high)
                    b = e.interface(Uj, Ui, c2, pj, pi, zj, zi, high=high)
                    return [x + y for x, y in zip(a.e, b.e)]

                def check(key, t):
                    R.count('cancellations', len(t))
                    R.ok('%s:%s:%s' % (e.tag, 'high' if high else 'low', key), all(x.is_zero() for x in t), w,
                         'F_ij + F_ji = 0', lambda: [pretty(x)[:400] for x in t if not x.is_zero()][:1])
                if not sw:
                    check('all', total(None, None))
                else:
                    check('mass', total(vec(S('Zi')), vec(S('Zj')))[:1])
                    h = Ui.e[0], Uj.e[0]
                    with T.assuming(*[a - b for a in h for b in (e.cut_small, e.cut_large)]):
                        check('flat', total(vec(S('Z')), vec(S('Z'))))
    R.floor('cancellations', 100)
