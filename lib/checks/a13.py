"""A13: bottom friction"""
from eqs import *


def run(R):
    preload()
    R.rule('The friction source is summarised over arbitrary states and step sizes, with the table entry replaced by what '
           'the precomputation stores for the same state; it must equal the regularised Manning law.')
    n = S('manning', True)
    for dim, v in variants():
        e = get(ShallowWater, dim, v)
        h, u, U = e.state()
        tau = S('tau', True)
        with T.assuming(h - e.cut_small, h - e.cut_large):
            pre = e.produced(U)[0]
            hs = T.power(h, T.const(T.Fraction(4, 3)))
            fac = 2 * G * n * n * T.sqrt(sq(u))
            want = vec(ZERO, *[-fac * x * h * T.inv(hs + T.vmax(hs, tau * fac)) for x in u])
            for nm, key in (('source_i', 'at(i)'), ('source_j', 'at(*js)')):
                arg = S('i') if nm == 'source_i' else S('js')
                got = e.with_tables({('pv', key): pre}, lambda: e.probe(nm, Opaque('pv'), arg, U, tau))
                R.count('friction laws')
                R.ok('%s:%s' % (e.tag, nm), same(got, want), e.fn('nodal_source', pred=lambda f: ('*' in f['params'][1]['t']) == (nm == 'source_j')),
                     'source = -2 g n^2 |v| m / (h^{4/3} + max(h^{4/3}, 2 tau g n^2 |v|)), mass source zero',
                     lambda: first_difference(got, want))
        # a state at rest is not affected, whatever its depth
        hd = S('h')
        U0 = vec(hd, *[ZERO] * dim)
        got = e.with_tables({('pv', 'at(i)'): vec(S('eta'), S('hs', True))}, lambda: e.probe('source_i', Opaque('pv'), S('i'), U0, tau))
        R.count('friction laws')
        R.ok('%s:rest' % e.tag, all(x.is_zero() for x in got.e), e.fn('manning_friction'), 'no source for a state at rest',
             lambda: pretty(got)[:400])
    R.floor('friction laws', 18)
