"""A02: the numerical flux is the physical flux of the equation"""
from eqs import *


def pair(f, fi, fj, c):
    return vec(*[-(dot(a, c) + dot(b, c)) for a, b in zip(fi, fj)])


def run(R):
    preload()
    R.rule('flux_contribution / flux_divergence are summarised as algebraic normal forms over two arbitrary states and '
           'an arbitrary vector c_ij; the result must be -(f(U_i) + f(U_j)) c_ij with f written down independently, '
           'where everything read from precomputed tables is replaced by what the precomputation of that equation '
           'stores for the state (producer and consumer analysed together).')
    for C, name in ALL:
        for dim, v in variants():
            e = get(C, dim, v)
            c = names('c', dim)
            w = e.fn('flux_divergence')

            def check(key, got, want, text):
                R.count('flux identities')
                R.ok('%s:%s' % (e.tag, key), same(got, want), w, text, lambda: first_difference(got, want))
            if C is Scalar:
                Ui, Uj = e.raw('i'), e.raw('j')
                fi = [[T.app('flux.f', Ui.e[0], T.const(k)) for k in range(dim)]]
                fj = [[T.app('flux.f', Uj.e[0], T.const(k)) for k in range(dim)]]
                pi, pj = e.produced(Ui)[0], e.produced(Uj)[0]
                check('flux', e.interface(Ui, Uj, vec(*c), pi, pj), pair(e, fi, fj, c), 'flux = -(f(u_i)+f(u_j)).c')
                check('flux-high', e.interface(Ui, Uj, vec(*c), pi, pj, high=True), pair(e, fi, fj, c), 'flux = -(f(u_i)+f(u_j)).c')
                continue
            si, sj = e.state('i'), e.state('j')
            Ui, Uj = si[-1], sj[-1]
            if C is ShallowWater:
                (hi, ui, _), (hj, uj, _) = si, sj
                Z = vec(S('Z'))

                def f(h, u, pr):
                    r = [[h * x for x in u]]
                    for i in range(dim):
                        r.append([h * u[i] * u[k] + (pr if i == k else ZERO) for k in range(dim)])
                    return r
                with T.assuming(hi - e.cut_small, hi - e.cut_large, hj - e.cut_small, hj - e.cut_large):
                    lo = e.interface(Ui, Uj, vec(*c), zi=Z, zj=Z)
                    want = pair(e, f(hi, ui, HALF * G * hi * hi), f(hj, uj, HALF * G * hj * hj), c)
                    check('flux', lo, want, 'on flat ground: flux = -(f(U_i)+f(U_j)).c with pressure g h^2/2')
                    hi_ = e.interface(Ui, Uj, vec(*c), zi=Z, zj=Z, high=True)
                    want = pair(e, f(hi, ui, HALF * G * hi * hj), f(hj, uj, HALF * G * hi * hj), c)
                    check('flux-high', hi_, want, 'on flat ground: high-order flux with pressure g h_i h_j / 2 per side')
                    same_ = e.interface(Ui, Ui, vec(*c), zi=Z, zj=Z, high=True)
                    ff = f(hi, ui, HALF * G * hi * hi)
                    check('flux-high-consistent', same_, pair(e, ff, ff, c), 'equal states: the physical flux')
                    # varying ground, all star states wet
                    Zi, Zj = S('Zi'), S('Zj')
                    mx = T.vmax(Zi, Zj)
                    Hi, Hj = hi + Zi - mx, hj + Zj - mx
                    with T.assuming(*[x - y for x in (Hi, Hj) for y in (ZERO, e.cut_small, e.cut_large)]):
                        lo = e.interface(Ui, Uj, vec(*c), zi=vec(Zi), zj=vec(Zj))
                    ps = G * (HALF * (Hj * Hj - Hi * Hi) + hi * hi)
                    want = pair(e, f(Hi, ui, HALF * ps), f(Hj, uj, HALF * ps), c)
                    check('flux-star', lo, want,
                          'flux of the hydrostatically reconstructed states, pressure g (h_i^2 + (H*_ji^2-H*_ij^2)/2)')
                continue
            if C is Euler:
                check('flux', e.interface(Ui, Uj, vec(*c)), pair(e, e.flux(*si[:-1]), e.flux(*sj[:-1]), c),
                      'flux = -(f(U_i)+f(U_j)).c of the compressible Euler equations, ideal gas')
                check('flux-high', e.interface(Ui, Uj, vec(*c), high=True), pair(e, e.flux(*si[:-1]), e.flux(*sj[:-1]), c),
                      'flux = -(f(U_i)+f(U_j)).c of the compressible Euler equations, ideal gas')
            else:
                nb = (e.raw('nb'), vec(*[S('nb.pre%d' % k) for k in range(4)]))
                pi, pj = e.produced(Ui, nb)[0], e.produced(Uj, nb)[0]
                P = [T.app('eos.pressure', s[0], s[2]) for s in (si, sj)]
                want = pair(e, e.flux(*si[:-1], P[0]), e.flux(*sj[:-1], P[1]), c)
                check('flux', e.interface(Ui, Uj, vec(*c), pi, pj), want,
                      'flux = -(f(U_i)+f(U_j)).c with the pressure of the equation of state')
                check('flux-high', e.interface(Ui, Uj, vec(*c), pi, pj, high=True), want,
                      'flux = -(f(U_i)+f(U_j)).c with the pressure of the equation of state')
    R.floor('flux identities', 60)
